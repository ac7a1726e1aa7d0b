#pragma once
#include <octomap/octomap.h>
#include <octomap_msgs/Octomap.h>
#include <functional>
namespace shim { extern std::function<octomap::AbstractOcTree*(const octomap_msgs::Octomap&)> octomap_decode; }
namespace octomap_msgs {
inline octomap::AbstractOcTree* msgToMap(const Octomap& m) { return shim::octomap_decode ? shim::octomap_decode(m) : nullptr; }
inline octomap::AbstractOcTree* fullMsgToMap(const Octomap& m) { return msgToMap(m); }
inline octomap::AbstractOcTree* binaryMsgToMap(const Octomap& m) { return msgToMap(m); }
}
