#include "rules.h"
using namespace slinky;
RULES(rule_max, apply_max_rules, false)
RULES(simplify_max, apply_max_rules, true)
