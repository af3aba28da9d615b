#include "mc.h"
#include <ndt_gslam/utils/string_tools.h>
static void one(mc::Ctx &c, const std::string &d, const std::string &t)
{
  auto v = slamuk::split(d, t);
  c.step();
  std::string j;
  for (size_t i = 0; i < v.size(); ++i)
    j += (i ? t : "") + v[i];
  c.check(!v.empty() && j == d, "parts of '%s' by '%s' do not join to the input ('%s')", d.c_str(), t.c_str(), j.c_str());
  if (t.empty()) {
    c.check(v.size() == 1, "empty token: %zu parts", v.size());
    return;
  }
  // leftmost, non overlapping separators
  std::vector<std::string> r(1);
  for (size_t i = 0; i < d.size();) {
    if (d.compare(i, t.size(), t) == 0) {
      r.push_back("");
      i += t.size();
    } else
      r.back() += d[i++];
  }
  c.check(v == r, "'%s' split by '%s': %zu parts, expected %zu", d.c_str(), t.c_str(), v.size(), r.size());
}
MC_BODY(all_short_strings)
{
  int n = c.choose(c.thorough() ? 14 : 11, "length");
  std::string d;
  for (int i = 0; i < n; ++i)
    d += "ab,"[c.choose(n > 9 ? 2 : 3)];
  static std::vector<std::string> T;
  if (T.empty()) {
    T.push_back("");
    for (char x : std::string("ab,")) {
      T.push_back(std::string(1, x));
      for (char y : std::string("ab,")) {
        T.push_back({x, y});
        for (char z : std::string("ab,"))
          T.push_back({x, y, z});
      }
    }
    T.push_back("abab");
    T.push_back("aaaaaaaaaaaaaaaa");
  }
  for (auto &t : T)
    one(c, d, t);
  c.state(mc::Hash().adds(d));
}
MC_BODY(long_strings)
{
  static const std::vector<std::string> U = {"", "x", "::", "12.5", " ", std::string(1, '\0'), "\n", "\xff\xfe", "::::", std::string(300, 'q')};
  static const std::vector<std::string> T = {"::", " ", ":", std::string(1, '\0'), "\n", "q", std::string(300, 'q'), "", ":::", "\xff"};
  std::string d;
  int n = c.thorough() ? 7 : 5;
  for (int i = 0; i < n; ++i)
    d += c.pick(U);
  for (auto &t : T)
    one(c, d, t);
  c.state(mc::Hash().adds(d));
}
MC_BODY(many_parts)
{
  int n = c.pick(std::vector<int>{1, 2, 15, 16, 17, 255, 256, 257, 1000, 5000});
  std::string sep = c.pick(std::vector<std::string>{",", "--", "\t \t"});
  std::string part = c.pick(std::vector<std::string>{"", "a", "value"});
  std::string d;
  for (int i = 0; i < n; ++i)
    d += (i ? sep : "") + part;
  one(c, d, sep);
  one(c, d + sep, sep);
  one(c, sep + d, sep);
  one(c, sep + sep + d + sep + sep, sep);
  c.state(mc::Hash().adds(d));
}
