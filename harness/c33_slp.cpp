// C33: prints the transition relation of the landing planner's state machine.
#include "vc.h"
#include <safe_landing_planner/waypoint_generator.hpp>
using namespace avoidance;
int main() {
  WaypointGenerator g; static const char* R[] = {"NEXT1", "NEXT2", "NEXT3", "NEXT4", "ERROR"};
  for (int i = 0; toString((SLPState)i) != "unknown" && i < 64; i++) for (int r = 0; r < 5; r++) printf("%s\t%s\t%s\n", toString((SLPState)i).c_str(), R[r], toString(g.chooseNextState((SLPState)i, (usm::Transition)(r + 1))).c_str());
}
