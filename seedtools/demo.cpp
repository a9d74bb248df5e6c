// Generic demonstration: opens files with the library, performs calls and prints everything a user can see.
#include <cppsas7bdat/reader.hpp>
#include <cppsas7bdat/filter/column.hpp>
#include <cppsas7bdat/source/ifstream.hpp>
#include <cppsas7bdat/sink/csv.hpp>
#include <cppsas7bdat/sink/print.hpp>
#include <cstdio>
#include <spdlog/spdlog.h>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
using namespace cppsas7bdat;
static std::string esc(std::string_view s) {
  std::string r; char b[8];
  for (unsigned char c : s) { if (c < 32 || c > 126 || c == '\\') { snprintf(b, 8, "\\x%02x", c); r += b; } else r += char(c); }
  return r;
}
struct Src {
  std::string d; size_t pos{0}; size_t* seen; bool e{false}; size_t fail{std::string::npos};
  bool eof() { return e; }
  bool read_bytes(void* p, size_t n) {
    if (fail != std::string::npos && pos + n > fail) return false;
    if (pos + n > d.size()) { pos = d.size(); e = true; return false; }
    memcpy(p, d.data() + pos, n); pos += n; *seen = pos; return true;
  }
};
struct Sink {
  std::string tag; COLUMNS cols;
  void set_properties(const Properties& p) {
    cols = COLUMNS(p.columns);
    std::cout << tag << "set\n";
  }
  void push_row(size_t i, Column::PBUF p) {
    std::cout << tag << "push " << i;
    for (auto& c : cols) {
      double x = c.get_number(p); unsigned long long u; memcpy(&u, &x, 8); char b[32]; snprintf(b, 32, "%llx", u);
      std::cout << " [" << esc(c.to_string(p)) << "|" << esc(c.get_string(p)) << "|" << (x != x ? "nan" : b) << "|" << c.get_integer(p) << "]";
    }
    std::cout << "\n";
  }
  void end_of_data() { std::cout << tag << "eod\n"; }
};
static void show(const Properties& p) {
  std::cout << "header " << p.format << " " << p.endianness << " " << p.platform << " " << p.encoding << " '" << esc(p.dataset_name) << "' '"
            << esc(p.file_type) << "' " << p.date_created << " " << p.date_modified << " '" << esc(p.sas_release) << "' '" << esc(p.sas_server_type)
            << "' '" << esc(p.os_type) << "' '" << esc(p.os_name) << "' " << p.header_length << " " << p.page_length << " " << p.page_count << "\n";
  std::cout << "meta " << p.compression << " '" << esc(p.creator) << "' '" << esc(p.creator_proc) << "' " << p.row_length << " " << p.row_count << " "
            << p.column_count << " " << p.col_count_p1 << " " << p.col_count_p2 << " " << p.mix_page_row_count << "\n";
  for (auto& c : p.columns) std::cout << "col '" << esc(c.name) << "' '" << esc(c.label) << "' '" << esc(c.format) << "' " << c.type << " " << c.length() << "\n";
}
int main(int argc, char** argv) {
  spdlog::set_level(spdlog::level::off);
  std::string dir = argv[1];
  std::map<int, Reader> rs; std::map<int, size_t> seen; std::map<int, std::ostringstream> os;
  ColumnFilter::IncludeExclude f;
  int cur = 1;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i], v; auto q = a.find('=');
    if (q != a.npos) { v = a.substr(q + 1); a = a.substr(0, q); }
    std::cout << "> " << argv[i] << "\n";
    try {
      if (a == "use") cur = std::stoi(v);
      else if (a == "inc") f.Include::included.insert(v);
      else if (a == "exc") f.Exclude::excluded.insert(v);
      else if (a == "open" || a == "csv" || a == "print" || a == "trunc" || a == "fail") {
        size_t cut = std::string::npos, fl = std::string::npos;
        if (a == "trunc") { auto k = v.find(':'); cut = std::stoul(v.substr(k + 1)); v = v.substr(0, k); }
        if (a == "fail") { auto k = v.find(':'); fl = std::stoul(v.substr(k + 1)); v = v.substr(0, k); }
        std::ifstream is(dir + "/" + v, std::ios::binary); std::stringstream ss; ss << is.rdbuf();
        Src s{ss.str().substr(0, cut), 0, &seen[cur], false, fl};
        if (a == "csv") rs[cur] = Reader(std::move(s), datasink::csv(os[cur]), ColumnFilter::IncludeExclude(f));
        else if (a == "print") rs[cur] = Reader(std::move(s), datasink::print(os[cur]), ColumnFilter::IncludeExclude(f));
        else rs[cur] = Reader(std::move(s), Sink{std::to_string(cur) + ": "}, ColumnFilter::IncludeExclude(f));
      }
      else if (a == "file") rs[cur] = Reader(datasource::ifstream((dir + "/" + v).c_str()), Sink{std::to_string(cur) + ": "}, ColumnFilter::IncludeExclude(f));
      else if (a == "show") show(rs[cur].properties());
      else if (a == "text") std::cout << os[cur].str();
      else if (a == "pos") std::cout << seen[cur] << "\n";
      else if (a == "idx") std::cout << rs[cur].current_row_index() << "\n";
      else if (a == "row") std::cout << "-> " << rs[cur].read_row() << "\n";
      else if (a == "rows") std::cout << "-> " << rs[cur].read_rows(std::stoul(v)) << "\n";
      else if (a == "skip") std::cout << "-> " << rs[cur].skip(std::stoul(v)) << "\n";
      else if (a == "nosink") std::cout << "-> " << (rs[cur].read_row_no_sink() != nullptr) << "\n";
      else if (a == "all") rs[cur].read_all();
      else if (a == "eod") rs[cur].end_of_data();
      else if (a == "move") { int t = std::stoi(v); rs[t] = std::move(rs[cur]); }
    } catch (const std::exception& e) { std::cout << "exception\n"; }
    std::cout.flush();
  }
}
