// K05: classes whose instances refer into themselves (or are referred to by registrations) cannot be copied or moved apart.
#include <array>
#include <string>
#include "Awl/Io/PersistentObject.h"
#include "Awl/Io/PlainSerializable.h"
#include "Awl/Io/BufferedStream.h"
#include "Awl/Io/Vts.h"
#include "Awl/QuickList.h"
#include "Awl/SingleList.h"
#include "Awl/DoubleNodeIterator.h"
#include "Awl/VectorSet.h"
#include "Awl/ObservableSet.h"
#include "Awl/MirrorSet.h"
#include "Awl/ForeignSet.h"
#include "Awl/KeyCompare.h"
#include "Awl/WatchDog.h"
#include "Awl/UpdateQueue.h"
#include "Awl/ObjectPool.h"
#include "Awl/StaticChain.h"
#include "Awl/Coro/UpdateTask.h"
#include "Awl/Coro/ProcessTask.h"
#include "Awl/Coro/Generator.h"
#include "Awl/Coro/AsyncGenerator.h"
struct VfS { int a; AWL_REFLECT(a) };
struct VfM { int a; VfM() = default; VfM(const VfM&) = delete; VfM& operator=(const VfM&) = delete; AWL_REFLECT(a) };
struct VfI { virtual void f() = 0; };
struct VfL : awl::quick_link { virtual ~VfL() = default; };
struct VfSL : awl::single_link {};
struct VfMutex { void lock(); void unlock(); };
using VfV = std::variant<VfS, int>;
using namespace awl; using namespace awl::io;
template <class T> constexpr bool nocopy = !std::is_copy_constructible_v<T> && !std::is_copy_assignable_v<T>;
template <class T> constexpr bool pinned = nocopy<T> && !std::is_move_constructible_v<T> && !std::is_move_assignable_v<T>;
// a wrapper keeps a reference to its value or to itself
static_assert(pinned<PersistentObject<VfS>>, "PersistentObject can be copied or moved: its wrapper refers to its own value");
static_assert(pinned<PersistentObject<VfM>>, "PersistentObject of a pinned value can be copied or moved");
static_assert(pinned<PersistentObject<VfS, AtomicStorage, crypto::Crc64, VfV>>, "PersistentObject with a variant list can be copied or moved");
static_assert(pinned<OptionalObject<VfS>>, "OptionalObject can be copied or moved: its wrapper refers to its own value");
static_assert(pinned<EuphoricallySerializable<VfS>>, "EuphoricallySerializable can be copied or moved: its hashing base refers to its own serializer");
static_assert(pinned<EuphoricallySerializable<VfS, VectorInputStream, VectorOutputStream>>, "EuphoricallySerializable over vector streams can be copied or moved");
static_assert(pinned<HeaderedSerializable<VfS>>, "HeaderedSerializable can be copied or moved: its hashing base refers to its own serializer");
static_assert(pinned<HeaderedSerializable<VfS, VectorInputStream, VectorOutputStream>>, "HeaderedSerializable over vector streams can be copied or moved");
static_assert(nocopy<BufferedInputStream>, "a hashing input stream can be copied: its position refers to its own block");
static_assert(nocopy<HashInputStream<crypto::Crc64, VectorInputStream>>, "a hashing input stream over a vector can be copied");
// members of prototypes and readers refer to each other
using VfV1 = awl::mp::variant_from_struct<VfS>;
static_assert(pinned<Reader<VfV1>>, "a version-tolerant reader can be copied or moved: its prototypes refer to each other");
static_assert(pinned<Writer<VfV1>>, "a version-tolerant writer can be copied or moved: its prototypes refer to each other");
static_assert(nocopy<AtomicStorage>, "AtomicStorage can be copied");
static_assert(nocopy<OptionalStorage>, "OptionalStorage can be copied");
// list heads are linked to themselves or from their elements
static_assert(pinned<single_list<VfSL>>, "a single list can be copied or moved: its elements refer to its head");
static_assert(nocopy<quick_list<VfL>>, "a quick list can be copied: its elements refer to its head");
static_assert(pinned<object_pool<VfL>>, "an object pool can be copied or moved: its objects refer to it");
static_assert(nocopy<observable_set<int>>, "an observable set can be copied: its observers refer to it");
static_assert(nocopy<Observable<VfI>>, "an observable can be copied: its observers refer to it");
static_assert(nocopy<Observer<VfI>>, "an observer can be copied: its observable refers to it");
static_assert(nocopy<mirror_set<int>>, "a mirror set can be copied: its source refers to it");
struct VfK { using result_type = int; template <class T> int operator()(const T& v) const { return v->a; } };
using VfFs = foreign_set<const VfS*, awl::getter<&VfS::a>, awl::getter<&VfS::a>>;
static_assert(nocopy<VfFs>, "a foreign set can be copied: its source refers to it");
static_assert(pinned<UpdateQueue<int>>, "an update queue can be copied or moved");
static_assert(pinned<StaticChain<int>>, "a static chain can be copied or moved: its links refer to it");
// the worker thread refers to the object
static_assert(pinned<watch_dog>, "a watch dog can be copied or moved: its thread refers to it");
// owners of coroutine frames and of objects
static_assert(nocopy<UpdateTask>, "an update task can be copied");
static_assert(nocopy<ProcessTask<int>>, "a process task can be copied");
static_assert(nocopy<ProcessTask<void>>, "a process task can be copied");
static_assert(nocopy<generator<int>>, "a generator can be copied");
static_assert(nocopy<async_generator<int>>, "an asynchronous generator can be copied");
static_assert(!nocopy<VfS> && !pinned<VfS>, "control: an ordinary class can be copied");
int main() { }
