#ifndef VERIF_OPS_H_
#define VERIF_OPS_H_
#include <memory>
#include <string>
#include "state.h"
namespace verif {
struct Session {
  State st;
  ppp::config::Config cfg;
};
void runStage(Session* s, const std::string& name);
bj::object runOp(Session* s, const bj::object& op);
}
#endif
