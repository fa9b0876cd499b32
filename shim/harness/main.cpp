// Answers requests (a JSON text per line) about generated C++ code.
#include "pv.h"

#include <sys/resource.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <iostream>

namespace pv {

std::map<int, Make>& table() {
  static std::map<int, Make> t;
  return t;
}

// ------------------------------------------------------------------- JSON
struct Reader {
  const char* p;

  void space() {
    while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') {
      ++p;
    }
  }

  Json::Value value() {
    space();
    if (*p == '{') {
      Json::Value o(Json::objectValue);
      ++p;
      space();
      while (*p != '}') {
        space();
        std::string k = text();
        space();
        ++p;  // :
        o[k] = value();
        space();
        if (*p == ',') {
          ++p;
        }
      }
      ++p;
      return o;
    }
    if (*p == '[') {
      Json::Value a(Json::arrayValue);
      ++p;
      space();
      while (*p != ']') {
        a.append(value());
        space();
        if (*p == ',') {
          ++p;
        }
        space();
      }
      ++p;
      return a;
    }
    if (*p == '"') {
      return Json::Value(text());
    }
    if (*p == 't') {
      p += 4;
      return Json::Value(true);
    }
    if (*p == 'f') {
      p += 5;
      return Json::Value(false);
    }
    if (*p == 'n') {
      p += 4;
      return Json::Value();
    }
    return number();
  }

  // as Json::Reader: integers that fit are integers
  Json::Value number() {
    const char* b = p;
    bool integer = true;
    while (*p && std::strchr("+-0123456789.eE", *p)) {
      if (std::strchr(".eE", *p)) {
        integer = false;
      }
      ++p;
    }
    std::string s(b, p);
    if (s.empty()) {
      std::cerr << "no JSON: " << b << "\n";
      std::exit(3);
    }
    if (integer) {
      errno = 0;
      long long x = std::strtoll(s.c_str(), nullptr, 10);
      if (errno == 0) {
        return Json::Value(static_cast<Json::Int64>(x));
      }
      errno = 0;
      if (s[0] != '-') {
        unsigned long long u = std::strtoull(s.c_str(), nullptr, 10);
        if (errno == 0) {
          return Json::Value(static_cast<Json::UInt64>(u));
        }
      }
    }
    return Json::Value(std::strtod(s.c_str(), nullptr));
  }

  unsigned hex() {
    unsigned u = static_cast<unsigned>(
        std::stoul(std::string(p, p + 4), nullptr, 16));
    p += 4;
    return u;
  }

  std::string text() {
    std::string out;
    ++p;
    while (*p != '"') {
      if (*p != '\\') {
        out += *p++;
        continue;
      }
      ++p;
      char c = *p++;
      switch (c) {
        case 'n':
          out += '\n';
          break;
        case 't':
          out += '\t';
          break;
        case 'r':
          out += '\r';
          break;
        case 'b':
          out += '\b';
          break;
        case 'f':
          out += '\f';
          break;
        case 'u': {
          unsigned u = hex();
          if (u >= 0xd800 && u < 0xdc00 && p[0] == '\\' && p[1] == 'u') {
            p += 2;
            u = 0x10000 + ((u - 0xd800) << 10) + (hex() - 0xdc00);
          }
          if (u < 0x80) {
            out += static_cast<char>(u);
          } else if (u < 0x800) {
            out += static_cast<char>(0xc0 | (u >> 6));
            out += static_cast<char>(0x80 | (u & 0x3f));
          } else if (u < 0x10000) {
            out += static_cast<char>(0xe0 | (u >> 12));
            out += static_cast<char>(0x80 | ((u >> 6) & 0x3f));
            out += static_cast<char>(0x80 | (u & 0x3f));
          } else {
            out += static_cast<char>(0xf0 | (u >> 18));
            out += static_cast<char>(0x80 | ((u >> 12) & 0x3f));
            out += static_cast<char>(0x80 | ((u >> 6) & 0x3f));
            out += static_cast<char>(0x80 | (u & 0x3f));
          }
          break;
        }
        default:
          out += c;
      }
    }
    ++p;
    return out;
  }
};

void write_text(const std::string& s, std::string* out) {
  *out += '"';
  for (char c : s) {
    if (c == '"' || c == '\\') {
      *out += '\\';
      *out += c;
    } else if (static_cast<unsigned char>(c) < 0x20 || c == 0x7f) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", static_cast<unsigned char>(c));
      *out += b;
    } else {
      *out += c;
    }
  }
  *out += '"';
}

void write(const Json::Value& v, std::string* out) {
  switch (v.type()) {
    case Json::nullValue:
      *out += "null";
      break;
    case Json::intValue:
      *out += std::to_string(v.asInt64());
      break;
    case Json::uintValue:
      *out += v.asString();
      break;
    case Json::realValue: {
      char b[64];
      std::snprintf(b, sizeof b, "%.17g", v.asDouble());
      std::string s(b);
      // as Json::Writer: a real number stays one
      if (s.find_first_of(".en") == std::string::npos) {
        s += ".0";
      }
      *out += s;
      break;
    }
    case Json::stringValue:
      write_text(v.asString(), out);
      break;
    case Json::booleanValue:
      *out += v.asBool() ? "true" : "false";
      break;
    case Json::arrayValue: {
      *out += '[';
      bool first = true;
      for (const Json::Value& x : v) {
        if (!first) {
          *out += ',';
        }
        first = false;
        write(x, out);
      }
      *out += ']';
      break;
    }
    case Json::objectValue: {
      *out += '{';
      bool first = true;
      for (Json::ValueConstIterator it = v.begin(); it != v.end(); ++it) {
        if (!first) {
          *out += ',';
        }
        first = false;
        write_text(it.name(), out);
        *out += ':';
        write(*it, out);
      }
      *out += '}';
      break;
    }
  }
}

Json::Value refs(const std::vector<std::string>& x) {
  Json::Value a(Json::arrayValue);
  for (const auto& r : x) {
    a.append(Json::Value(r));
  }
  return a;
}

// --------------------------------------------------------------- natives
template <typename T>
Json::Value date_parse(const std::string& format, const std::string& text,
                       T target, Json::Value* rest) {
  std::istringstream in(text);
  in >> date::parse(format, target);
  if (in.fail()) {
    return Json::Value();
  }
  in.clear();
  const auto at = in.tellg();
  *rest = Json::Value(static_cast<Json::Int64>(
      at < 0 ? 0 : static_cast<Json::Int64>(text.size()) - at));
  return Json::Value(true);
}

void native(const std::string& k, const std::string& format,
            const std::string& text, Json::Value* r) {
  (*r)["Ok"] = false;
  if (k == "r") {
    try {
      (*r)["Ok"] = std::regex_match(text, std::regex(format));
    } catch (const std::regex_error& e) {
      (*r)["Panic"] = e.what();
    }
    return;
  }
  if (k == "z") {
    try {
      (*r)["T"] = date::locate_zone(text)->name();
      (*r)["Ok"] = true;
    } catch (const std::runtime_error&) {
    }
    return;
  }
  if (k == "c") {
    struct tm t = tm{0};
    const char* e = strptime(text.c_str(), format.c_str(), &t);
    if (e != nullptr) {
      (*r)["Ok"] = true;
      (*r)["Rest"] = Json::Value(static_cast<Json::Int64>(
          static_cast<Json::Int64>(text.size()) - (e - text.c_str())));
      (*r)["T"] = dump_tm(t);
      char buf[4096];
      (*r)["Len"] = Json::Value(
          static_cast<Json::Int64>(strftime(buf, 4096, format.c_str(), &t)));
    }
    return;
  }
  // date.h
  std::istringstream in(text);
  Json::Int64 n = 0;
  if (k == "dd") {
    date::local_days x;
    in >> date::parse(format, x);
    n = x.time_since_epoch().count();
  } else if (k == "ds") {
    date::local_seconds x;
    in >> date::parse(format, x);
    n = x.time_since_epoch().count();
  } else {
    std::chrono::seconds x(0);
    in >> date::parse(format, x);
    n = x.count();
  }
  if (!in.fail()) {
    (*r)["Ok"] = true;
    (*r)["T"] = Json::Value(std::to_string(n));
    in.clear();
    const auto at = in.tellg();
    (*r)["Rest"] = Json::Value(
        at < 0 ? static_cast<Json::Int64>(0)
               : static_cast<Json::Int64>(text.size()) - at);
  }
}

std::string text_of(const Json::Value& v) {
  std::string s;
  write(v, &s);
  return s;
}

void run(const Json::Value& q, Json::Value* r) {
  (*r)["Panic"] = "";
  (*r)["Errors"] = Json::Value(Json::arrayValue);
  (*r)["Errors2"] = Json::Value(Json::arrayValue);
  (*r)["OutErr"] = "";
  (*r)["Out"] = Json::Value();
  (*r)["Done"] = "";
  (*r)["Changed"] = false;
  (*r)["Altered"] = false;
  (*r)["Refused"] = false;
  const std::string k = q["K"].asString();
  if (k != "v") {
    native(k, q["Pattern"].asString(), q["Text"].asString(), r);
    return;
  }
  std::unique_ptr<Graph> g = table().at(q["S"].asInt())();
  const Json::Value v = q["Value"];
  const std::string ref = q["Ref"].asString();
  std::vector<std::string> errors;
  try {
    errors = g->parse(v, ref, static_cast<size_t>(q["Cap"].asInt64()));
  } catch (const std::exception& e) {
    (*r)["Panic"] = std::string("parsing throws: ") + e.what();
    return;
  }
  (*r)["Errors"] = refs(errors);
  (*r)["Changed"] = !(v == q["Value"]);
  if (!errors.empty()) {
    return;
  }
  (*r)["Dump"] = g->dump();
  if (q.isMember("Parse")) {
    return;
  }
  const std::string before = text_of((*r)["Dump"]);
  Json::Value out;
  try {
    out = g->write();
  } catch (const std::exception& e) {
    (*r)["OutErr"] = std::string("throws: ") + e.what();
    return;
  }
  (*r)["Altered"] = text_of(g->dump()) != before;
  (*r)["Out"] = out;
  // numbers as they are read again
  const std::string text = text_of(out);
  Reader rd{text.c_str()};
  std::unique_ptr<Graph> g2 = table().at(q["S"].asInt())();
  try {
    (*r)["Errors2"] = refs(g2->parse(rd.value(), ref, 10));
  } catch (const std::exception& e) {
    (*r)["OutErr"] = std::string("parsing again throws: ") + e.what();
    return;
  }
  if ((*r)["Errors2"].empty()) {
    (*r)["Dump2"] = g2->dump();
  }
  if (!q["Tamper"].isNull()) {
    const Json::Value& t = q["Tamper"];
    g->tamper(t["Class"].asString(), t["ID"].asString(), t["New"].asString());
    try {
      g->write();
    } catch (const std::invalid_argument&) {
      (*r)["Refused"] = true;
    }
  }
}

}  // namespace pv

int main() {
  // a loop that takes all memory ends in an exception
  struct rlimit lim = {3ul << 29, 3ul << 29};
  setrlimit(RLIMIT_AS, &lim);
  std::string line;
  while (std::getline(std::cin, line)) {
    pv::Reader rd{line.c_str()};
    const Json::Value q = rd.value();
    Json::Value r(Json::objectValue);
    // a call that does not return ends the process
    alarm(20);
    pv::run(q, &r);
    alarm(0);
    std::string out;
    pv::write(r, &out);
    std::cout << out << "\n" << std::flush;
  }
  return 0;
}
