// A minimal stand-in for the cppflow API, sufficient to build the modules of pdftotext++ which use it. There is no
// TensorFlow here: the model is a function pointer the harness installs (or a fixed pattern taken from the
// environment variable PPP_STUB_ROLES, used when the real command line program is run with this stub).
#ifndef VERIF_STUB_CPPFLOW_H_
#define VERIF_STUB_CPPFLOW_H_
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>

namespace cppflow {

class tensor {
 public:
  tensor() = default;
  template <typename T>
  tensor(const std::vector<T>& v, const std::vector<int64_t>& s) : dims(s) {
    for (const auto& x : v) { vals.push_back(static_cast<double>(x)); }
  }
  tensor shape() const {
    tensor t;
    for (auto d : dims) { t.vals.push_back(static_cast<double>(d)); }
    t.dims = { static_cast<int64_t>(dims.size()) };
    return t;
  }
  template <typename T>
  std::vector<T> get_data() const {
    std::vector<T> r;
    for (auto d : vals) { r.push_back(static_cast<T>(d)); }
    return r;
  }
  std::vector<double> vals;
  std::vector<int64_t> dims;
};

using model_fn = std::function<tensor(const std::map<std::string, tensor>&)>;
inline model_fn& stub_model() { static model_fn f; return f; }
inline int& stub_models_loaded() { static int n = 0; return n; }

class model {
 public:
  explicit model(const std::string& p) : path(p) { stub_models_loaded()++; }
  std::vector<tensor> operator()(const std::vector<std::tuple<std::string, tensor>>& inputs,
      const std::vector<std::string>& outputs) {
    std::map<std::string, tensor> in;
    for (const auto& t : inputs) { in[std::get<0>(t)] = std::get<1>(t); }
    if (stub_model()) { return { stub_model()(in) }; }
    int64_t n = in.empty() ? 0 : in.begin()->second.dims[0];
    std::vector<int> roles;
    const char* env = getenv("PPP_STUB_ROLES");
    std::stringstream ss(env ? env : "0");
    std::string item;
    while (std::getline(ss, item, ',')) { roles.push_back(atoi(item.c_str())); }
    std::vector<float> v(n * 14, 0.0f);
    for (int64_t i = 0; i < n; i++) { v[i * 14 + roles[i % roles.size()]] = 1.0f; }
    return { tensor(v, { n, 14 }) };
  }
  std::string path;
};

}  // namespace cppflow
#endif
