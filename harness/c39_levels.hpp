// The assertion macros with one set of levels switched on, as a unit of its own (only assert.h may be included here).
// Each function evaluates one macro with a condition and two values, all of them counted.
#pragma once
struct Counts {
  int condition = 0, first = 0, second = 0;
};
#define C39_FUNCTIONS(ns)                                                                                             \
  namespace ns {                                                                                                      \
  static bool cond(Counts& c, bool ok) { ++c.condition; return ok; }                                                  \
  static const char* one(Counts& c) { ++c.first; return "first value"; }                                              \
  static int two(Counts& c) { ++c.second; return 4711; }                                                              \
  void plain(Counts& c, bool ok) { (void) c; (void) ok; (void) cond; (void) one; (void) two;                          \
    DLAF_ASSERT(cond(c, ok), one(c), two(c)); }                                                                       \
  void moderate(Counts& c, bool ok) { (void) c; (void) ok; DLAF_ASSERT_MODERATE(cond(c, ok), one(c), two(c)); }       \
  void heavy(Counts& c, bool ok) { (void) c; (void) ok; DLAF_ASSERT_HEAVY(cond(c, ok), one(c), two(c)); }             \
  }
#define C39_DECLARE(ns) namespace ns { void plain(Counts&, bool); void moderate(Counts&, bool); void heavy(Counts&, bool); }
