#include "rules.h"
using namespace slinky;
RULES(rule_add, apply_add_rules, false)
RULES(simplify_add, apply_add_rules, true)
RULES(rule_sub, apply_sub_rules, false)
RULES(simplify_sub, apply_sub_rules, true)
RULES(rule_mul, apply_mul_rules, false)
RULES(simplify_mul, apply_mul_rules, true)
RULES(rule_div, apply_div_rules, false)
RULES(simplify_div, apply_div_rules, true)
RULES(rule_mod, apply_mod_rules, false)
RULES(simplify_mod, apply_mod_rules, true)
