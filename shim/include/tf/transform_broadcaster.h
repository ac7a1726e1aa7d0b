#pragma once
#include <tf/transform_listener.h>
