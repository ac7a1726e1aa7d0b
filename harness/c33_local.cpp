// C33: prints the transition relation of the local planner's state machine.
#include "wpgen.h"
int main() {
  WaypointGenerator g; static const char* R[] = {"NEXT1", "NEXT2", "NEXT3", "NEXT4", "ERROR"};
  for (int i = 0; toString((PlannerState)i) != "unknown" && i < 64; i++) for (int r = 0; r < 5; r++) printf("%s\t%s\t%s\n", toString((PlannerState)i).c_str(), R[r], toString(g.chooseNextState((PlannerState)i, (usm::Transition)(r + 1))).c_str());
}
