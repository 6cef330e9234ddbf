// The time queue resumes the coroutine that is due first.
#include "Awl/Coro/ProcessTask.h"
#include "Awl/Testing/TimeQueue.h"
#include <iostream>
using namespace std::chrono; static std::vector<int> order; static nanoseconds took;
static awl::ProcessTask<int> wait(awl::testing::TimeQueue& q, int i, nanoseconds d) { auto t = steady_clock::now(); co_await awl::testing::TimeAwaitable(q, d); order.push_back(i); if (i == 0) took = steady_clock::now() - t; co_return i; }
int main() { awl::testing::TimeQueue q; auto a = wait(q, 0, milliseconds(10)), b = wait(q, 1, milliseconds(300)); q.loop(); std::cout << "first " << order[0] << ", the short wait took " << took.count() / 1000000 << " ms\n"; return order[0] == 0 && took < milliseconds(200) ? 0 : 1; }
