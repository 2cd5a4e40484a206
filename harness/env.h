// Scripted answers of the external decomposition tools (htd, kahypar).
//
// The specification treats those tools as a nondeterministic environment; a
// script says what they answer:
//   orderings            v1 v2 ... vn            (elimination sequence)
//   tree decompositions  p1 k1 v.. p2 k2 v.. ..  (bag i: parent, size, content)
//   bipartitions         b1 b2 ...               (sides, consumed call by call;
//                        when used up: alternating sides)
#ifndef ENV_H
#define ENV_H
#include <string>
#include <vector>
void env_script(const std::vector<long> &spec);
// what was asked and answered, as JSON
std::string env_answers();
#endif
