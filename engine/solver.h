#pragma once
#include "expr.h"
struct SolverStats { u64 z3_queries=0,z3_sat=0,z3_unsat=0,z3_unknown=0,cache_hits=0,model_hits=0,unary=0,certified=0; double z3_s=0; };
extern SolverStats SS;
// conjunction of cons with the byte domains; 1 sat (model filled), 0 unsat, -1 unknown
int solve(const std::vector<Expr*>&cons,const std::vector<Dom>&dom,u8*model);
bool certifyUnsat(Expr*lut,const Dom&d,bool side); // z3: no value of d gives lut==side
