// Runs the real command line program in a directory of its own, and reports what it printed and what it changed there.
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>
#include <map>
#include <sstream>

#include <Annot.h>
#include <GlobalParams.h>
#include <PDFDoc.h>
#include <PDFDocFactory.h>
#include <Page.h>
#include <Stream.h>

#include <cmath>

#include "ops.h"

namespace fs = std::filesystem;

namespace verif {

static std::string str(const bj::value& v) { return std::string(v.as_string().c_str(), v.as_string().size()); }

static std::string slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}

std::string unhex(const std::string& h);

// Everything below a directory: "/" for directories, the content of files.
static std::map<std::string, std::string> snapshot(const std::string& root) {
  std::map<std::string, std::string> m;
  std::error_code ec;
  for (auto it = fs::recursive_directory_iterator(root, ec); it != fs::recursive_directory_iterator(); it.increment(ec)) {
    std::string p = it->path().string().substr(root.size() + 1);
    if (it->is_symlink(ec)) {
      m[p] = "->" + fs::read_symlink(it->path(), ec).string();
    } else if (it->is_directory(ec)) {
      m[p] = "/";
    } else {
      m[p] = ":" + slurp(it->path().string());
    }
  }
  return m;
}

static bj::array list(const std::map<std::string, std::string>& m) {
  bj::array a;
  for (const auto& x : m) {
    bool file = x.second[0] == ':';
    std::string c = file ? x.second.substr(1) : x.second;
    bool pdf = c.substr(0, 5) == "%PDF-";
    if (pdf) { c = std::to_string(std::hash<std::string>()(c)); }
    a.push_back(bj::object({ { "p", x.first }, { "k", file ? (pdf ? "pdf" : "file") : x.second[0] == '/' ? "dir" : "link" }, { "t", c } }));
  }
  return a;
}

static int64_t u160(double v) { return std::llround(v * 160); }

static bj::array color(const AnnotColor* c) {
  bj::array a;
  if (c) { for (int i = 0; i < static_cast<int>(c->getSpace()); i++) { a.push_back(std::llround(c->getValues()[i] * 100)); } }
  return a;
}

// The pages of a PDF file: media box, rotation, digest of the content, annotations.
static bj::object look(const std::string& root, const std::string& p) {
  bj::object o = { { "p", p } };
  bj::array pages;
  std::unique_ptr<PDFDoc> doc = PDFDocFactory().createPDFDoc(GooString(root + "/" + p));
  o["ok"] = doc->isOk();
  for (int i = 1; doc->isOk() && i <= doc->getNumPages(); i++) {
    Page* page = doc->getPage(i);
    const PDFRectangle* m = page->getMediaBox();
    bj::object g = { { "m", bj::array({ u160(m->x1), u160(m->y1), u160(m->x2), u160(m->y2) }) }, { "rot", page->getRotate() } };
    std::string content;
    Object c = page->getContents();
    auto add = [&](Object* x) {
      if (!x->isStream()) { return; }
      x->streamReset();
      int ch;
      while ((ch = x->getStream()->getChar()) != EOF) { content += static_cast<char>(ch); }
      content += '\n';
    };
    if (c.isArray()) {
      for (int k = 0; k < c.arrayGetLength(); k++) {
        Object x = c.arrayGet(k);
        add(&x);
      }
    } else {
      add(&c);
    }
    g["c"] = std::to_string(std::hash<std::string>()(content));
    bj::array an;
    for (Annot* a : page->getAnnots()->getAnnots()) {
      const PDFRectangle& r = a->getRect();
      bj::object x = { { "r", bj::array({ u160(r.x1), u160(r.y1), u160(r.x2), u160(r.y2) }) }, { "c", color(a->getColor()) },
                       { "v", bj::array() }, { "f", bj::array() }, { "t", "" } };
      std::string t;
      if (const GooString* s = a->getContents()) {
        for (int k = 0; k < s->getLength(); k++) {
          unsigned char b = s->getChar(k);
          if (b >= 32 && b < 127) { t += static_cast<char>(b); }
        }
      }
      x["t"] = t;
      switch (a->getType()) {
        case Annot::typeSquare: x["st"] = "square"; break;
        case Annot::typeCircle: x["st"] = "circle"; break;
        case Annot::typeLine: x["st"] = "line"; break;
        case Annot::typeFreeText: x["st"] = "text"; break;
        default: x["st"] = "other"; break;
      }
      if (auto* l = dynamic_cast<AnnotLine*>(a)) { x["v"] = bj::array({ u160(l->getX1()), u160(l->getY1()), u160(l->getX2()), u160(l->getY2()) }); }
      if (auto* q = dynamic_cast<AnnotGeometry*>(a)) { x["f"] = color(q->getInteriorColor()); }
      an.push_back(x);
    }
    g["an"] = an;
    pages.push_back(g);
  }
  o["pages"] = pages;
  return o;
}

// op: args; dirs, files [{p, hex | t}], links [{p, t}] (created first; a record without them continues in the same directory).
static bj::object cli(const bj::object& op) {
  static int n = 0;
  char cwd[4096];
  if (!getcwd(cwd, sizeof(cwd))) { throw std::runtime_error("getcwd"); }
  if (op.if_contains("dirs")) { n++; }
  std::string root = std::string(cwd) + "/cli-" + std::to_string(getpid()) + "-" + std::to_string(n);
  std::string work = root + "/w", out = root + "/out", err = root + "/err";
  fs::create_directories(work);
  if (op.if_contains("dirs")) {
    for (const auto& d : op.at("dirs").as_array()) { fs::create_directories(work + "/" + str(d)); }
    for (const auto& f : op.at("files").as_array()) {
      const auto& o = f.as_object();
      std::ofstream(work + "/" + str(o.at("p")), std::ios::binary) << (o.if_contains("hex") ? unhex(str(o.at("hex"))) : str(o.at("t")));
    }
  }
  auto before = snapshot(work);
  unlink(out.c_str());
  unlink(err.c_str());
  std::vector<std::string> args = { "pdftotext++" };
  for (const auto& a : op.at("args").as_array()) { args.push_back(str(a)); }
  std::string exe = fs::path(fs::read_symlink("/proc/self/exe")).parent_path().string() + "/pdftotext++";
  pid_t pid = fork();
  if (pid == 0) {
    if (chdir(work.c_str())) { _exit(97); }
    int i = open("/dev/null", O_RDONLY), o = open(out.c_str(), O_WRONLY | O_CREAT, 0644), e = open(err.c_str(), O_WRONLY | O_CREAT, 0644);
    dup2(i, 0);
    dup2(o, 1);
    dup2(e, 2);
    std::vector<char*> av;
    for (auto& a : args) { av.push_back(a.data()); }
    av.push_back(nullptr);
    execv(exe.c_str(), av.data());
    _exit(98);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  bj::object e = op;
  e.erase("files");
  e.erase("dirs");
  e["fresh"] = op.if_contains("dirs") != nullptr;
  e["rc"] = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
  e["out"] = slurp(out);
  e["err"] = slurp(err);
  e["before"] = list(before);
  e["after"] = list(snapshot(work));
  if (op.if_contains("look")) {
    bj::array a;
    for (const auto& p : op.at("look").as_array()) { a.push_back(look(work, str(p))); }
    e["look"] = a;
  }
  return e;
}

bj::object runCliOp(const std::string& name, const bj::object& op) {
  if (name == "cli") { return cli(op); }
  throw std::runtime_error("unknown operation " + name);
}

}  // namespace verif
