// observable_set: migrate from an empty set announces nothing; emplace takes constructor arguments (does not compile before the repair).
#include "Awl/QuickList.h"
#include "Awl/DoubleNodeIterator.h"
#include "Awl/ObservableSet.h"
#include <iostream>
static int cleared, added;
struct P { int a, b; P(int x, int y) : a(x), b(y) {} bool operator<(const P& o) const { return a < o.a; } };
struct O : awl::Observer<awl::INotifySetChanged<P>> { void OnAdded(const P&) override { ++added; } void OnRemoving(const P&) override {} void OnClearing() override { ++cleared; } };
int main() { awl::observable_set<P> s, t; O o; s.Subscribe(&o); t.migrate(std::move(s)); std::cout << (cleared ? "FAIL: clearing of an empty set announced\n" : "OK\n");
#ifndef NO_EMPLACE
  s.emplace(1, 2); if (added != 1) { std::cout << "FAIL emplace\n"; ++cleared; }
#endif
  return cleared; }
