// Documents: trees that are written as YAML in many ways, with at most one mistake put into them. Quiet code.
#pragma once
#include "w/common.h"

namespace w {

struct Y {
  enum Kind { kText, kNumber, kList, kMap, kNothing } kind = kText;
  std::string text;
  std::vector<Y> list;
  std::vector<std::pair<std::string, Y>> map;

  Y() = default;
  Y(const char* s) : text(s) {}
  Y(const std::string& s) : text(s) {}
  Y(double d) : kind(kNumber), text(dbl(d)) {}
  Y(int d) : kind(kNumber), text(num(d)) {}
  static Y Nothing() { Y y; y.kind = kNothing; return y; }
  static Y List(std::vector<Y> v = {}) { Y y; y.kind = kList; y.list = std::move(v); return y; }
  static Y Map(std::vector<std::pair<std::string, Y>> v = {}) { Y y; y.kind = kMap; y.map = std::move(v); return y; }
  template <class Id>
  static Y Ids(const std::vector<Id>& v) { Y y = List(); for (const auto& x : v) y.list.push_back(Y(x.string())); return y; }
  void put(const std::string& k, Y v) { map.emplace_back(k, std::move(v)); }
  void add(Y v) { list.push_back(std::move(v)); }
};

// Puts the mistake into the place of number `target`; asked once per place.
struct Mistake {
  int target = -1, seen = 0;
  std::string made;
  bool here(const char* what) {
    if (seen++ != target) return false;
    made = what;
    return true;
  }
  // A key that must be there.
  void req(Y* m, const std::string& key, Y v) {
    if (here("key missing")) { made += ": " + key; return; }
    // As if the document had been cut off there.
    if ((!v.list.empty() || !v.map.empty()) && here("nothing behind a key")) { made += ": " + key; v = Y::Nothing(); }
    m->put(key, std::move(v));
  }
};

class YamlWriter {
 public:
  std::string write(const Y& root) {
    if (sim::flip(1, 6)) comment(0);
    if (sim::flip(1, 4)) out_ += "---\n";
    if (root.kind == Y::kMap && !root.map.empty() && !sim::flip(1, 12)) block(root, 0);
    else { flow(root); out_ += "\n"; }
    if (sim::flip(1, 6)) comment(0);
    if (out_.size() > 1 && sim::flip(1, 12)) out_.pop_back();  // no newline at the end
    return out_;
  }

 private:
  std::string out_;

  void comment(int in) {
    out_ += std::string(in, ' ') + "# ";
    uint32_t n = sim::flip(1, 12) ? 1 + sim::choose(9000) : sim::choose(60);
    for (uint32_t i = 0; i < n; ++i) out_ += i % 17 == 16 ? ' ' : "a: [b]}{'#\"- x"[i % 14];
    out_ += "\n";
  }
  static bool plain_ok(const std::string& s) {
    if (s.empty() || !isalpha(static_cast<unsigned char>(s[0])) || s.back() == ' ') return false;
    for (char c : s) if (!isalnum(static_cast<unsigned char>(c)) && c != ' ' && c != '-' && c != '/' && c != '_') return false;
    static const std::set<std::string> reserved = {"null", "Null", "NULL", "true", "false", "yes", "no", "on", "off", "y", "n"};
    return !reserved.count(s);
  }
  void scalar(const std::string& s, bool number) {
    if (number) { out_ += s; return; }
    uint32_t style = plain_ok(s) ? sim::choose(4) : 2 + sim::choose(2);
    if (style < 2) { out_ += s; return; }
    if (style == 2) {
      out_ += '\'';
      for (char c : s) out_ += c == '\'' ? std::string("''") : std::string(1, c);
      out_ += '\'';
    } else {
      out_ += '"';
      for (char c : s) out_ += c == '"' || c == '\\' ? std::string("\\") + c : std::string(1, c);
      out_ += '"';
    }
  }
  void flow(const Y& y) {
    const char* sep = sim::flip(1, 8) ? ",  " : ", ";
    if (y.kind == Y::kList) {
      out_ += "[";
      for (size_t i = 0; i < y.list.size(); ++i) { if (i) out_ += sep; flow(y.list[i]); }
      out_ += "]";
    } else if (y.kind == Y::kMap) {
      out_ += "{";
      for (size_t i = 0; i < y.map.size(); ++i) {
        if (i) out_ += sep;
        scalar(y.map[i].first, false);
        out_ += ": ";
        flow(y.map[i].second);
      }
      out_ += "}";
    } else if (y.kind == Y::kNothing) {
      static const char* const none[] = {"", "~", "null"};
      out_ += none[sim::choose(3)];
    } else {
      scalar(y.text, y.kind == Y::kNumber);
    }
  }
  static size_t size_of(const Y& y) {
    size_t n = y.text.size() + 2;
    for (const auto& x : y.list) n += size_of(x);
    for (const auto& x : y.map) n += x.first.size() + size_of(x.second);
    return n;
  }
  bool in_block(const Y& y) {
    if (y.kind == Y::kList) return !y.list.empty() && !(size_of(y) < 400 && sim::flip(1, 3));
    if (y.kind == Y::kMap) return !y.map.empty() && !(size_of(y) < 400 && sim::flip(1, 5));
    return false;
  }
  // Writes the entries of a map or list, each on lines of its own. `first_inline`: the first entry continues a line.
  void block(const Y& y, int in, bool first_inline = false) {
    int step = 2 + static_cast<int>(sim::choose(3) == 0);
    bool first = first_inline;
    if (y.kind == Y::kMap) {
      for (const auto& e : y.map) {
        if (!first && sim::flip(1, 20)) comment(in);
        if (!first) out_ += std::string(in, ' ');
        first = false;
        scalar(e.first, false);
        out_ += ":";
        value(e.second, in, step);
      }
    } else {
      for (const auto& e : y.list) {
        if (!first && sim::flip(1, 20)) comment(in);
        if (!first) out_ += std::string(in, ' ');
        first = false;
        out_ += "-";
        if (e.kind == Y::kMap && in_block(e)) { out_ += " "; block(e, in + 2, true); }
        else value(e, in, step);
      }
    }
  }
  void value(const Y& y, int in, int step) {
    if ((y.kind == Y::kMap || y.kind == Y::kList) && in_block(y)) {
      if (sim::flip(1, 15)) out_ += "  # remark";
      out_ += "\n";
      block(y, in + step);
    } else {
      out_ += " ";
      flow(y);
      if (sim::flip(1, 20)) out_ += "  # remark";
      out_ += "\n";
    }
  }
};

}  // namespace w
