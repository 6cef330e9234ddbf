// Loading from an optional storage that is not open must report failure and do no I/O.
#include "Awl/Io/OptionalStorage.h"
#include <iostream>
struct L : awl::Logger { void log(awl::LogLevel, awl::LogString) override {} };
struct V : awl::io::Serializable<> { void Read(awl::io::SequentialInputStream&) override {} void Write(awl::io::SequentialOutputStream&) const override {} };
int main() { L l; V v; awl::io::OptionalStorage s(l); try { bool r = s.Load(v); std::cout << (r ? "FAIL\n" : "OK\n"); return r; } catch (const std::exception& e) { std::cout << "FAIL: " << typeid(e).name() << "\n"; return 1; } }
