#include "rules.h"
using namespace slinky;
RULES(rule_min, apply_min_rules, false)
RULES(simplify_min, apply_min_rules, true)
