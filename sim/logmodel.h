// What a console line must look like, written from the documentation of the output format.
#pragma once
#include <string>
#include <time.h>
#include "wl.h"
namespace sim {
struct LogRec {
  std::string msg, name, fn, file;
  bool loc = true;
  uint64_t line = 0;
  int sev = RCUTILS_LOG_SEVERITY_INFO;
  int64_t ts = 0;
};
inline std::string sev_name(int s)
{
  switch (s) {
    case 0: return "UNSET"; case 10: return "DEBUG"; case 20: return "INFO"; case 30: return "WARN";
    case 40: return "ERROR"; case 50: return "FATAL"; default: return "?";
  }
}
inline std::string decode_escapes(const std::string & f)
{
  std::string o;
  for (size_t i = 0; i < f.size(); ) {
    if (f[i] != '\\') {o += f[i++]; continue;}
    char n = i + 1 < f.size() ? f[i + 1] : 0;
    if (f.compare(i, 4, "\\x1b") == 0) {o += '\x1b'; i += 4; continue;}
    const char * from = "abnrt", * to = "\a\b\n\r\t";
    const char * k = n ? strchr(from, n) : nullptr;
    if (k) {o += to[k - from]; i += 2; continue;}
    o += f[i++];                       // anything else is literal, with the character after it
    if (i < f.size()) {o += f[i++];}
  }
  return o;
}
inline std::string text_date(int64_t ts)
{
  time_t s = (time_t)(ts / 1000000000ll) + (time_t)g_tz_offset;
  struct tm t;
  gmtime_r(&s, &t);
  char b[64], c[96];
  strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &t);
  snprintf(c, sizeof c, "%s.%03d", b, (int)(ts % 1000000000ll / 1000000));
  return c;
}
inline std::string text_seconds(int64_t ts)
{
  char b[64];
  uint64_t a = ts < 0 ? 0 - (uint64_t)ts : (uint64_t)ts;
  snprintf(b, sizeof b, "%s%010llu.%09llu", ts < 0 ? "-" : "", (unsigned long long)(a / 1000000000ull),
    (unsigned long long)(a % 1000000000ull));
  return b;
}
inline std::string text_ns(int64_t ts)
{
  char b[64];
  uint64_t a = ts < 0 ? 0 - (uint64_t)ts : (uint64_t)ts;
  snprintf(b, sizeof b, "%s%019llu", ts < 0 ? "-" : "", (unsigned long long)a);
  return b;
}
// *parts: number of pieces of the format (tokens and literal pieces), an upper estimate
inline std::string render(const std::string & format, const LogRec & r, size_t * parts = nullptr)
{
  std::string f = decode_escapes(format), o;
  size_t np = 0;
  for (size_t i = 0; i < f.size(); ) {
    ++np;
    if (f[i] != '{') {
      while (i < f.size() && f[i] != '{') {o += f[i++];}
      continue;
    }
    size_t e = f.find('}', i);
    if (e == std::string::npos) {o += f.substr(i); break;}
    std::string t = f.substr(i + 1, e - i - 1);
    bool known = true;
    if (t == "severity") {o += sev_name(r.sev);} else if (t == "name") {o += r.name;} else if (t == "message") {o += r.msg;
    } else if (t == "function_name") {if (r.loc) {o += r.fn;}} else if (t == "file_name") {if (r.loc) {o += r.file;}
    } else if (t == "time") {o += text_seconds(r.ts);} else if (t == "date_time_with_ms") {o += text_date(r.ts);
    } else if (t == "time_as_nanoseconds") {o += text_ns(r.ts);
    } else if (t == "line_number") {if (r.loc) {o += std::to_string(r.line).substr(0, 9);}} else {known = false;}
    if (known) {i = e + 1;} else {o += f[i++];}
  }
  if (parts) {*parts = np;}
  return o;
}
// the format in force for a value of RCUTILS_CONSOLE_OUTPUT_FORMAT
inline const char * default_format() {return "[{severity}] [{time}] [{name}]: {message}";}
inline std::string gen_format(Rng & r, bool th, bool * toomany = nullptr)
{
  static const std::vector<std::string> bits = {"{severity}", "{name}", "{message}", "{message}", "{function_name}", "{file_name}",
    "{time}", "{date_time_with_ms}", "{time_as_nanoseconds}", "{line_number}", "[", "] ", ": ", "%s", "%n%d", "{", "}", "{}",
    "{unknown}", "{messag}", "{message ", "{{", "}}", "{Name}", "\\n", "\\t", "\\x1b[1m", "\\x1b", "\\a", "\\b", "\\r", "\\q",
    "\\\\", "\\x1", "\\", "plain text ", "\\{message}", "x", "\xc3\xa9", "{line_number", "{name}{"};
  std::string s;
  size_t n = 1 + r.below(r.chance(1, 6) ? 40 : 7);
  for (size_t i = 0; i < n; ++i) {s += r.pick(bits);}
  if (r.chance(1, 3)) {s += "{message}";}
  if (r.chance(1, 25)) {                     // near the length limit
    while (s.size() < 2000) {s += "literal text {name} ";}
    s.resize(2000);
    s += std::string((size_t)r.range(0, 120), 'z');
    if (r.chance(1, 2)) {                    // something to decode at the limit itself
      static const std::vector<std::string> cut = {"\\q", "\\", "{name}", "{message}", "{{", "%n%d", "{line_number}"};
      std::string c = r.pick(cut);
      s.resize(2000, '.');
      s += std::string(47 - r.below(c.size() + 1), 'y') + c + std::string(r.below(40), 'z');
    }
  }
  if (r.chance(1, 60)) {
    std::string m;
    for (int i = 0, k = (int)r.range(500, 525); i < k; ++i) {m += "{}";}
    s = m + "{message}";
  }
  (void)th;
  (void)toomany;
  return s;
}
}  // namespace sim
