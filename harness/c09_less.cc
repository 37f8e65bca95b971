#include "rules.h"
using namespace slinky;
RULES(rule_less, apply_less_rules, false)
RULES(simplify_less, apply_less_rules, true)
