// The conformance harness: reads jobs (one JSON object per line) and runs them on the real code of /repo, each in a
// process of its own, so that a crash, an uncaught exception or an endless loop is an observation and not the end of
// the run. Usage: ppph JOBS RESULTS [PARALLEL]
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <vector>

#include "ops.h"
#include "state.h"

static std::string runJob(const std::string& line) {
  bj::object res;
  bj::value v = bj::parse(line);
  const auto& job = v.as_object();
  res["id"] = job.at("id");
  bj::array evs;
  verif::Session s;
  for (const auto& op : job.at("ops").as_array()) {
    try {
      bj::object e = verif::runOp(&s, op.as_object());
      if (!e.empty()) { evs.push_back(std::move(e)); }
    } catch (const std::exception& ex) {
      bj::object e;
      e["op"] = "exception";
      e["at"] = op.as_object().at("op");
      e["what"] = ex.what();
      evs.push_back(e);
      break;
    }
  }
  res["ev"] = evs;
  return bj::serialize(res);
}

// Boost writes UTF-8; escape everything that is not ASCII, so that no reader depends on a locale.
static std::string ascii(const std::string& s) {
  std::string r;
  r.reserve(s.size());
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    if (c < 0x80) { r += c; i++; continue; }
    int n = c >= 0xF0 ? 3 : c >= 0xE0 ? 2 : 1;
    unsigned cp = c & (n == 3 ? 0x07 : n == 2 ? 0x0F : 0x1F);
    bool ok = i + n < s.size();
    for (int k = 1; ok && k <= n; k++) {
      unsigned char d = s[i + k];
      if ((d & 0xC0) != 0x80) { ok = false; }
      cp = cp << 6 | (d & 0x3F);
    }
    char buf[16];
    if (!ok || c < 0xC0) { snprintf(buf, sizeof(buf), "\\uDC%02X", c); r += buf; i++; continue; }
    if (cp >= 0x10000) {
      cp -= 0x10000;
      snprintf(buf, sizeof(buf), "\\u%04X\\u%04X", 0xD800 + (cp >> 10), 0xDC00 + (cp & 0x3FF));
    } else {
      snprintf(buf, sizeof(buf), "\\u%04X", cp);
    }
    r += buf;
    i += n + 1;
  }
  return r;
}

struct Child { pid_t pid; int fd; std::string out; size_t job; time_t start; };

int main(int argc, char** argv) {
  if (argc < 3) { return 2; }
  std::ifstream in(argv[1]);
  std::vector<std::string> jobs;
  std::string l;
  while (std::getline(in, l)) { if (!l.empty()) { jobs.push_back(l); } }
  std::vector<std::string> results(jobs.size());
  size_t par = argc > 3 ? atoi(argv[3]) : 8;
  int timeout = argc > 4 ? atoi(argv[4]) : 30;
  std::vector<Child> run;
  size_t next = 0, done = 0;
  while (done < jobs.size()) {
    while (run.size() < par && next < jobs.size()) {
      int p[2];
      if (pipe(p)) { return 2; }
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0) {
        for (auto& c : run) { close(c.fd); }
        close(p[0]);
        setpgid(0, 0);
        std::string r;
        r = runJob(jobs[next]);
        r = ascii(r);
        size_t o = 0;
        while (o < r.size()) {
          ssize_t n = write(p[1], r.data() + o, r.size() - o);
          if (n <= 0) { break; }
          o += n;
        }
        _exit(0);
      }
      close(p[1]);
      run.push_back({ pid, p[0], "", next, time(nullptr) });
      next++;
    }
    std::vector<pollfd> fds;
    for (auto& c : run) { fds.push_back({ c.fd, POLLIN, 0 }); }
    poll(fds.data(), fds.size(), 500);
    for (size_t i = run.size(); i-- > 0;) {
      Child& c = run[i];
      bool end = false;
      if (fds[i].revents) {
        char buf[65536];
        ssize_t n = read(c.fd, buf, sizeof(buf));
        if (n > 0) { c.out.append(buf, n); } else { end = true; }
      }
      bool late = !end && time(nullptr) - c.start > timeout;
      if (late) { kill(-c.pid, SIGKILL); kill(c.pid, SIGKILL); end = true; }
      if (end) {
        int st = 0;
        waitpid(c.pid, &st, 0);
        kill(-c.pid, SIGKILL);
        close(c.fd);
        if (!late && WIFEXITED(st) && WEXITSTATUS(st) == 0 && !c.out.empty()) {
          results[c.job] = c.out;
        } else {
          std::ostringstream ss;
          bj::value v = bj::parse(jobs[c.job]);
          ss << "{\"id\":" << bj::serialize(v.as_object().at("id")) << ",\"crash\":\""
             << (late ? "timeout" : WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st))
                                                    : "exit " + std::to_string(WEXITSTATUS(st)))
             << "\",\"ev\":[]}";
          results[c.job] = ss.str();
        }
        run.erase(run.begin() + i);
        done++;
      }
    }
  }
  std::ofstream out(argv[2]);
  for (auto& r : results) { out << r << "\n"; }
  return 0;
}
