// Conformance driver: runs scripted sessions against the public C++ API of cpp-sas7bdat and logs one ndjson event per
// observable step (call, pushed row, end of data, return, exception).  It decides nothing: TLC does.
//
// usage: driver BLOB SCRIPT OUT TMPDIR
// script lines:
//   S id                                  start of a session (runs in a forked child)
//   open rid off len key=value...         open a reader on BLOB[off..off+len)
//   row rid | rows rid n | all rid | skip rid n | nosink rid | eod rid | idx rid | props rid
//   def rid | mv rid rid2 | ma rid rid2 | del rid | text rid
//   >T line                               line runs in thread T; a row of such lines runs its threads side by side
//   ^rid:K line                           line runs inside the K-th push_row of rid's sink, before that row is logged
//   E
// events made inside a push_row or a thread carry "t", the lane they belong to
#include <cppsas7bdat/reader.hpp>
#include <cppsas7bdat/sink/csv.hpp>
#include <cppsas7bdat/sink/null.hpp>
#include <cppsas7bdat/sink/print.hpp>
#include <cppsas7bdat/source/ifstream.hpp>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <map>
#include <mutex>
#include <optional>
#include <set>
#include <spdlog/spdlog.h>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>

using namespace cppsas7bdat;
using std::string;

static FILE *out;
static string blob, tmpdir, sid;
static thread_local int lane = 0; // 0: the session's own line of calls
static std::mutex emitting;
static std::map<string, std::multimap<size_t, string>> nested;
static void run_session(const std::vector<string> &lines);

static long emitted = 0;
static void emit(const string &ev) {
  const string s = lane == 0 ? ev : "{\"t\":" + std::to_string(lane) + "," + ev.substr(1);
  std::lock_guard<std::mutex> guard(emitting);
  if (++emitted > 40000) // a session never gets near that many events: something runs away
    _exit(77);
  std::fputs(s.c_str(), out);
  std::fputc('\n', out);
  std::fflush(out);
}
static string num(long long v) { return std::to_string(v); }
static string bytes(const void *p, size_t n) {
  string r = "[";
  const unsigned char *b = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; ++i) {
    if (i)
      r += ',';
    r += std::to_string(b[i]);
  }
  return r + "]";
}
static string bytes(std::string_view s) { return bytes(s.data(), s.size()); }
static string words(size_t v) {
  return "[" + num((v >> 48) & 0xffff) + "," + num((v >> 32) & 0xffff) + "," + num((v >> 16) & 0xffff) + "," +
         num(v & 0xffff) + "]";
}
static string dbl(double d) {
  unsigned long long u;
  std::memcpy(&u, &d, 8);
  unsigned char b[8];
  for (int i = 0; i < 8; ++i)
    b[i] = static_cast<unsigned char>(u >> (56 - 8 * i));
  return bytes(b, 8);
}
static string dte(const DATE &d) {
  if (d.is_special())
    return "[]";
  return "[" + num(static_cast<int>(d.year())) + "," + num(d.month().as_number()) + "," + num(d.day().as_number()) + "]";
}
static string tme(const TIME &t) {
  if (t.is_special())
    return "[]";
  auto us = t.total_microseconds();
  // sign, hours, minutes, seconds, microseconds
  long long a = us < 0 ? -us : us;
  return "[" + num(us < 0 ? 1 : 0) + "," + num(a / 3600000000LL) + "," + num(a / 60000000LL % 60) + "," +
         num(a / 1000000LL % 60) + "," + num(a % 1000000LL) + "]";
}
static string dtm(const DATETIME &d) {
  if (d.is_special())
    return "[]";
  auto us = d.time_of_day().total_microseconds();
  return "[" + num(static_cast<int>(d.date().year())) + "," + num(d.date().month().as_number()) + "," +
         num(d.date().day().as_number()) + "," + num(us / 3600000000LL) + "," + num(us / 60000000LL % 60) + "," +
         num(us / 1000000LL % 60) + "," + num(us % 1000000LL) + "]";
}
// values outside the calendar have no civil form: [-2]
template <typename Fp> static string civil(Fp &&f) try { return f(); } catch (const std::exception &) {
  return "[-2]";
}

static string cell(const Column &c, Column::PBUF p) {
  switch (c.type) {
  case Column::Type::string:
    return bytes(c.get_string(p));
  case Column::Type::number:
    return dbl(c.get_number(p));
  case Column::Type::integer:
    return "[" + num(c.get_integer(p)) + "]";
  case Column::Type::datetime:
    return civil([&] { return dtm(c.get_datetime(p)); });
  case Column::Type::date:
    return civil([&] { return dte(c.get_date(p)); });
  case Column::Type::time:
    return civil([&] { return tme(c.get_time(p)); });
  default:
    return "[]";
  }
}
static string full(const Column &c, Column::PBUF p) {
  string x = "[]", ok = "1";
  try {
    x = bytes(c.to_string(p));
  } catch (const std::exception &) {
    ok = "0";
  }
  const double n = c.get_number(p);
  return "{\"s\":" + bytes(c.get_string(p)) + ",\"n\":" + dbl(n) + ",\"nan\":" + (n != n ? "1" : "0") +
         ",\"i\":" + num(c.get_integer(p)) + ",\"dt\":" + civil([&] { return dtm(c.get_datetime(p)); }) + ",\"d\":" + civil([&] { return dte(c.get_date(p)); }) +
         ",\"t\":" + civil([&] { return tme(c.get_time(p)); }) + ",\"x\":" + x + ",\"xok\":" + ok + "}";
}

static string columns_json(const COLUMNS &cols) {
  string r = "[";
  bool first = true;
  for (const auto &c : cols) {
    if (!first)
      r += ",";
    first = false;
    r += "{\"name\":" + bytes(c.name) + ",\"label\":" + bytes(c.label) + ",\"format\":" + bytes(c.format) +
         ",\"type\":\"" + string(to_string(c.type)) + "\",\"length\":" + words(c.length()) + "}";
  }
  return r + "]";
}
static string props_json(const Properties &p) {
  string r = "{";
  r += "\"format\":\"" + string(to_string(p.format)) + "\",\"endian\":\"" + string(to_string(p.endianness)) +
       "\",\"platform\":\"" + string(to_string(p.platform)) + "\",\"created\":" + civil([&] { return dtm(p.date_created); }) +
       ",\"modified\":" + civil([&] { return dtm(p.date_modified); }) + ",\"dataset\":" + bytes(p.dataset_name) +
       ",\"encoding\":" + bytes(p.encoding) + ",\"ftype\":" + bytes(p.file_type) + ",\"release\":" +
       bytes(p.sas_release) + ",\"server\":" + bytes(p.sas_server_type) + ",\"ostype\":" + bytes(p.os_type) +
       ",\"osname\":" + bytes(p.os_name) + ",\"hlen\":" + words(p.header_length) + ",\"plen\":" +
       words(p.page_length) + ",\"pcount\":" + words(p.page_count) + ",\"compression\":\"" +
       string(to_string(p.compression)) + "\",\"creator\":" + bytes(p.creator) + ",\"proc\":" +
       bytes(p.creator_proc) + ",\"rowlen\":" + words(p.row_length) + ",\"rowcount\":" + words(p.row_count) +
       ",\"ncols\":" + words(p.column_count) + ",\"p1\":" + words(p.col_count_p1) + ",\"p2\":" +
       words(p.col_count_p2) + ",\"mixrows\":" + words(p.mix_page_row_count) + ",\"lcs\":" + words(p.lcs) +
       ",\"lcp\":" + words(p.lcp) + "}";
  return r;
}

// ------------------------------------------------------------------ data source
struct Pos {
  size_t consumed{0};
};
struct Source {
  size_t off, len;
  std::shared_ptr<Pos> pos;
  bool eager;       // eof() becomes true as soon as everything was consumed
  long long failpos; // a read that goes past this byte fails without eof (-1: never)
  bool thrower;
  bool failed_once{false}, transient;
  bool at_eof{false};
  size_t at{0};

  bool eof() { return at_eof || (eager && at == len); }
  bool read_bytes(void *p, const size_t n) {
    if (failpos >= 0 && at + n > static_cast<size_t>(failpos) && !(transient && failed_once)) {
      failed_once = true;
      if (thrower)
        throw std::runtime_error("source failure");
      return false;
    }
    const size_t m = std::min(n, len - at);
    std::memcpy(p, blob.data() + off + at, m);
    at += m;
    pos->consumed = at;
    if (m < n) {
      at_eof = true;
      return false;
    }
    return true;
  }
};

// ------------------------------------------------------------------ sinks
struct Log {
  string rid;
  std::shared_ptr<Pos> pos;
  string cells{"val"};
  bool setdetail{true};
  size_t from{0}, every{1}; // log only the cells of rows with index >= from and index % every == 0
};
static string head(const Log &l, const char *e) {
  return "{\"s\":" + sid + ",\"r\":" + l.rid + ",\"e\":\"" + e + "\",\"pos\":" + num(static_cast<long long>(l.pos->consumed));
}
static string row_json(const Log &l, const COLUMNS &cols, Column::PBUF p) {
  string r = "[";
  bool first = true;
  for (const auto &c : cols) {
    if (!first)
      r += ",";
    first = false;
    r += l.cells == "full" ? full(c, p) : cell(c, p);
  }
  return r + "]";
}
// the row's content: the raw bytes (cells=raw) or one value per column
static string content(const Log &l, const COLUMNS &cols, size_t row_length, Column::PBUF p) {
  if (l.cells == "raw")
    return ",\"raw\":" + bytes(p, std::min<size_t>(row_length, 100000));
  return (l.cells == "full" ? ",\"f\":" : ",\"v\":") + row_json(l, cols, p);
}
struct LogSink {
  Log l;
  COLUMNS columns{};
  size_t row_length{0};
  size_t pushed{0};
  void set_properties(const Properties &p) {
    columns = COLUMNS(p.columns);
    row_length = p.row_length;
    if (l.setdetail)
      emit(head(l, "set") + ",\"props\":" + props_json(p) + ",\"cols\":" + columns_json(p.columns) + "}");
    else
      emit(head(l, "set") + ",\"n\":" + num(static_cast<long long>(p.columns.size())) + "}");
  }
  void push_row(size_t i, Column::PBUF p) {
    ++pushed;
    if (auto n = nested.find(l.rid); n != nested.end() && n->second.count(pushed)) {
      std::vector<string> lines;
      auto [a, b] = n->second.equal_range(pushed);
      for (auto x = a; x != b; ++x)
        lines.push_back(x->second);
      lane += 10;
      run_session(lines);
      lane -= 10;
    }
    string v = (l.cells != "none" && i >= l.from && i % l.every == 0) ? content(l, columns, row_length, p) : string();
    emit(head(l, "push") + ",\"i\":" + words(i) + v + "}");
  }
  void end_of_data() { emit(head(l, "eod") + "}"); }
};
// ------------------------------------------------------------------ filters
struct LogFilter {
  std::shared_ptr<std::vector<string>> asked;
  std::set<string> keep;
  bool all;
  bool accept(const Column &c) const {
    asked->push_back(c.name);
    return all || keep.count(c.name);
  }
};

static std::vector<string> split(const string &s, char d) {
  std::vector<string> r;
  string x;
  std::istringstream is(s);
  while (std::getline(is, x, d))
    r.push_back(x);
  return r;
}
static string unhex(const string &s) {
  string r;
  for (size_t i = 0; i + 1 < s.size(); i += 2)
    r += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16));
  return r;
}

struct R {
  std::optional<Reader> reader;
  Log log;
  std::shared_ptr<std::ostringstream> os;
  string csvname;
  COLUMNS cols; // copy kept by the user
};
static std::map<string, R> rs;

static string exc(const Log &l, const char *op, const std::exception &e) {
  return head(l, "exc") + ",\"op\":\"" + op + "\",\"what\":" + bytes(string(e.what())) + "}";
}

template <typename Src, typename Snk>
static void do_open(R &r, Src &&src, Snk &&snk, std::map<string, string> &o) {
  if (o.count("inc") || o.count("exc")) {
    auto list = [&](const char *k) {
      std::set<string> s;
      if (o.count(k))
        for (auto &x : split(o[k], ','))
          s.insert(x == "-" ? string() : unhex(x));
      return s;
    };
    const string fk = o["fk"];
    if (fk == "inc")
      r.reader.emplace(std::forward<Src>(src), std::forward<Snk>(snk), ColumnFilter::Include{list("inc")});
    else if (fk == "exc")
      r.reader.emplace(std::forward<Src>(src), std::forward<Snk>(snk), ColumnFilter::Exclude{list("exc")});
    else {
      ColumnFilter::IncludeExclude f;
      f.included = list("inc");
      f.excluded = list("exc");
      r.reader.emplace(std::forward<Src>(src), std::forward<Snk>(snk), std::move(f));
    }
  } else if (o.count("user")) {
    auto asked = std::make_shared<std::vector<string>>();
    LogFilter f{asked, {}, o["user"] == "all"};
    for (auto &x : split(o["keep"], ','))
      f.keep.insert(x == "-" ? string() : unhex(x));
    r.reader.emplace(std::forward<Src>(src), std::forward<Snk>(snk), std::move(f));
    string a = "[";
    for (size_t i = 0; i < asked->size(); ++i)
      a += (i ? "," : "") + bytes((*asked)[i]);
    emit(head(r.log, "asked") + ",\"names\":" + a + "]}");
  } else
    r.reader.emplace(std::forward<Src>(src), std::forward<Snk>(snk));
}
template <typename Src> static void do_open_sink(R &r, Src &&src, std::map<string, string> &o) {
  const string k = o.count("sink") ? o["sink"] : "log";
  if (k == "log")
    do_open(r, std::forward<Src>(src), LogSink{r.log}, o);
  else if (k == "null")
    do_open(r, std::forward<Src>(src), datasink::null(), o);
  else if (k == "csv") {
    r.os = std::make_shared<std::ostringstream>();
    do_open(r, std::forward<Src>(src), datasink::csv(*r.os), o);
  } else if (k == "print") {
    r.os = std::make_shared<std::ostringstream>();
    do_open(r, std::forward<Src>(src), datasink::print(*r.os), o);
  } else if (k == "csvfile") {
    r.csvname = tmpdir + "/out." + std::to_string(getpid()) + "." + r.log.rid + ".csv";
    do_open(r, std::forward<Src>(src), datasink::csv(r.csvname.c_str()), o);
  }
}

static void open_reader(std::istringstream &is) {
  string rid, kv;
  size_t off, len;
  is >> rid >> off >> len;
  std::map<string, string> o;
  while (is >> kv) {
    auto p = kv.find('=');
    o[kv.substr(0, p)] = kv.substr(p + 1);
  }
  R &r = rs[rid];
  r.log = Log{rid, std::make_shared<Pos>()};
  if (o.count("cells"))
    r.log.cells = o["cells"];
  if (o.count("det"))
    r.log.setdetail = o["det"] == "1";
  if (o.count("from"))
    r.log.from = std::stoul(o["from"]);
  if (o.count("every"))
    r.log.every = std::stoul(o["every"]);
  if (o.count("trunc"))
    len = std::min<size_t>(len, std::stoul(o["trunc"]));
  try {
    if (o.count("file")) {
      const string fn = tmpdir + "/in." + std::to_string(getpid()) + "." + rid + ".sas7bdat";
      {
        std::ofstream f(fn, std::ios::binary);
        f.write(blob.data() + off, static_cast<std::streamsize>(len));
      }
      try {
        do_open_sink(r, datasource::ifstream(fn.c_str()), o);
      } catch (...) {
        unlink(fn.c_str());
        throw;
      }
      unlink(fn.c_str());
    } else {
      Source s{off, len, r.log.pos, o.count("eager") > 0, o.count("fail") ? std::stoll(o["fail"]) : -1,
               o.count("throw") > 0, false, o.count("transient") > 0};
      do_open_sink(r, std::move(s), o);
    }
    emit(head(r.log, "opened") + "}");
  } catch (const std::exception &e) {
    r.reader.reset();
    emit(exc(r.log, "open", e));
  }
}

static void run_session(const std::vector<string> &lines) {
  for (size_t at = 0; at < lines.size(); ++at) {
    const string line = lines[at];
    std::istringstream is(line);
    string op, rid;
    is >> op;
    if (op[0] == '^') {
      const auto c = op.find(':');
      nested[op.substr(1, c - 1)].emplace(std::stoul(op.substr(c + 1)), line.substr(op.size() + 1));
      continue;
    }
    if (op[0] == '>') {
      std::map<int, std::vector<string>> by;
      for (; at < lines.size() && lines[at][0] == '>'; ++at) {
        std::istringstream ls(lines[at]);
        string t, o, a, b;
        ls >> t >> o >> a >> b;
        rs[a]; // no thread changes the map
        if (o == "mv" || o == "ma")
          rs[b];
        by[std::stoi(t.substr(1))].push_back(lines[at].substr(t.size() + 1));
      }
      --at;
      std::vector<std::thread> ts;
      for (auto &x : by)
        ts.emplace_back([&x] {
          lane = x.first;
          run_session(x.second);
        });
      for (auto &x : ts)
        x.join();
      continue;
    }
    if (op == "open") {
      open_reader(is);
      continue;
    }
    is >> rid;
    R &r = rs[rid];
    if (op == "def") {
      r.reader.emplace();
      r.log = Log{rid, std::make_shared<Pos>()};
      continue;
    }
    if (op == "mv" || op == "ma") {
      string rid2;
      is >> rid2;
      R &r2 = rs[rid2];
      if (!r.reader)
        continue;
      if (op == "mv") {
        r2.reader.reset();
        r2.reader.emplace(std::move(*r.reader));
      } else {
        if (!r2.reader)
          r2.reader.emplace();
        *r2.reader = std::move(*r.reader);
      }
      // rows pushed from now on still carry the original reader id: it is the sink's
      auto lg = r.log;
      r2.log = lg;
      r2.os = r.os;
      r2.csvname = r.csvname;
      r.log = Log{rid, std::make_shared<Pos>()};
      emit("{\"s\":" + sid + ",\"r\":" + rid + ",\"e\":\"" + op + "\",\"to\":" + rid2 + "}");
      continue;
    }
    if (!r.reader)
      continue;
    Reader &x = *r.reader;
    auto call = [&](const string &n) {
      emit("{\"s\":" + sid + ",\"r\":" + rid + ",\"e\":\"call\",\"op\":\"" + op + "\",\"n\":" + n + "}");
    };
    auto ret = [&](const string &v) {
      emit("{\"s\":" + sid + ",\"r\":" + rid + ",\"e\":\"ret\",\"op\":\"" + op + "\",\"v\":" + v +
           ",\"idx\":" + words(x.current_row_index()) + ",\"pos\":" + num(static_cast<long long>(r.log.pos->consumed)) + "}");
    };
    try {
      if (op == "row") {
        call("1");
        ret(x.read_row() ? "1" : "0");
      } else if (op == "rows") {
        size_t n;
        is >> n;
        call(num(static_cast<long long>(std::min<size_t>(n, 2000000000))));
        ret(x.read_rows(n) ? "1" : "0");
      } else if (op == "skip") {
        size_t n;
        is >> n;
        call(num(static_cast<long long>(std::min<size_t>(n, 2000000000))));
        ret(x.skip(n) ? "1" : "0");
      } else if (op == "all") {
        call("0");
        x.read_all();
        ret("0");
      } else if (op == "nosink") {
        call("1");
        auto p = x.read_row_no_sink();
        if (!p)
          ret("0");
        else {
          Log l = r.log;
          emit("{\"s\":" + sid + ",\"r\":" + rid + ",\"e\":\"ptr\"" +
               (l.cells != "none" ? content(l, x.properties().columns, x.properties().row_length, p) : string()) + "}");
          ret("1");
        }
      } else if (op == "eod") {
        call("0");
        x.end_of_data();
        ret("0");
      } else if (op == "idx") {
        call("0");
        ret("0");
      } else if (op == "props") {
        call("0");
        emit("{\"s\":" + sid + ",\"r\":" + rid + ",\"e\":\"props\",\"props\":" + props_json(x.properties()) +
             ",\"cols\":" + columns_json(x.properties().columns) + "}");
        ret("0");
      } else if (op == "text") {
        emit("{\"s\":" + sid + ",\"r\":" + rid + ",\"e\":\"text\",\"v\":" + bytes(r.os ? r.os->str() : string()) + "}");
      } else if (op == "del") {
        r.reader.reset();
        if (!r.csvname.empty()) {
          std::ifstream f(r.csvname, std::ios::binary);
          std::stringstream ss;
          ss << f.rdbuf();
          emit("{\"s\":" + sid + ",\"r\":" + rid + ",\"e\":\"text\",\"v\":" + bytes(ss.str()) + "}");
          unlink(r.csvname.c_str());
        }
      }
    } catch (const std::exception &e) {
      emit(exc(r.log, op.c_str(), e));
    }
  }
}

#if defined(__SANITIZE_ADDRESS__)
// an allocation nobody can serve is std::bad_alloc, as without the sanitizer (whose own operator new ends the process)
static void *alloc(size_t n, size_t a) {
  void *p = nullptr;
  if (n > (600UL << 20) || posix_memalign(&p, std::max(a, sizeof(void *)), n ? n : 1))
    throw std::bad_alloc();
  return p;
}
void *operator new(size_t n) { return alloc(n, alignof(std::max_align_t)); }
void *operator new[](size_t n) { return alloc(n, alignof(std::max_align_t)); }
void *operator new(size_t n, std::align_val_t a) { return alloc(n, static_cast<size_t>(a)); }
void *operator new[](size_t n, std::align_val_t a) { return alloc(n, static_cast<size_t>(a)); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { free(p); }

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99";
}
#endif

int main(int argc, char **argv) {
  if (argc < 5)
    return 2;
  spdlog::set_level(spdlog::level::off);
  {
    std::ifstream f(argv[1], std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    blob = ss.str();
  }
  std::ifstream script(argv[2]);
  out = std::fopen(argv[3], "w");
  tmpdir = argv[4];
  string line;
  std::vector<string> cmds;
  int hung = 0;
  while (std::getline(script, line)) {
    if (line[0] == 'S') {
      sid = line.substr(2);
      cmds.clear();
    } else if (line[0] == 'E') {
      std::fflush(out);
      if (hung >= 3) { // do not wait for every session of code that hangs
        emitted = 0;
        emit("{\"s\":" + sid + ",\"e\":\"crash\",\"st\":-1}");
        continue;
      }
      emitted = 0;
      const pid_t pid = fork();
      if (pid == 0) {
        struct rlimit rl {8, 8};
        setrlimit(RLIMIT_CPU, &rl);
#if !defined(__SANITIZE_ADDRESS__)
        struct rlimit as {3UL << 30, 3UL << 30};
        setrlimit(RLIMIT_AS, &as);
#endif
        alarm(30);
        run_session(cmds);
        nested.clear();
        rs.clear();
        std::fflush(out);
        _exit(0);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        emit("{\"s\":" + sid + ",\"e\":\"done\"}");
      else
        emit("{\"s\":" + sid + ",\"e\":\"crash\",\"st\":" + num(st) + "}");
      if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGALRM))
        ++hung;
    } else
      cmds.push_back(line);
  }
  std::fclose(out);
  return 0;
}
