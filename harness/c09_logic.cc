#include "rules.h"
using namespace slinky;
RULES(rule_equal, apply_equal_rules, false)
RULES(simplify_equal, apply_equal_rules, true)
RULES(rule_logical_and, apply_logical_and_rules, false)
RULES(simplify_logical_and, apply_logical_and_rules, true)
RULES(rule_logical_or, apply_logical_or_rules, false)
RULES(simplify_logical_or, apply_logical_or_rules, true)
RULES(rule_logical_not, apply_logical_not_rules, false)
RULES(simplify_logical_not, apply_logical_not_rules, true)
RULES(rule_select, apply_select_rules, false)
RULES(simplify_select, apply_select_rules, true)
RULES(rule_call, apply_call_rules, false)
RULES(simplify_call, apply_call_rules, true)
