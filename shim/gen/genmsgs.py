#!/usr/bin/env python3
"""Generate stand-in C++ headers for ROS messages, services and dynamic_reconfigure configs.

usage: genmsgs.py REPO OUTDIR
Standard messages come from the table below (the wire definitions of the ROS packages); the repository's own
.msg and .cfg files are read from REPO, so a change to them is picked up."""
import os, re, sys, glob

STD = {}
def m(name, text): STD[name] = text

m("std_msgs/Header", "uint32 seq\ntime stamp\nstring frame_id")
for t in ["Bool:bool", "String:string", "UInt32:uint32", "Int32:int32", "Float64:float64", "Float32:float32", "UInt8:uint8", "Int64:int64", "UInt64:uint64"]:
    n, ty = t.split(":"); m("std_msgs/" + n, ty + " data")
m("std_msgs/Empty", "")
m("std_msgs/ColorRGBA", "float32 r\nfloat32 g\nfloat32 b\nfloat32 a")
m("std_msgs/MultiArrayDimension", "string label\nuint32 size\nuint32 stride")
m("std_msgs/MultiArrayLayout", "MultiArrayDimension[] dim\nuint32 data_offset")
m("std_msgs/Int64MultiArray", "MultiArrayLayout layout\nint64[] data")
m("std_msgs/Float64MultiArray", "MultiArrayLayout layout\nfloat64[] data")
m("std_msgs/Float32MultiArray", "MultiArrayLayout layout\nfloat32[] data")
m("geometry_msgs/Point", "float64 x\nfloat64 y\nfloat64 z")
m("geometry_msgs/Point32", "float32 x\nfloat32 y\nfloat32 z")
m("geometry_msgs/Vector3", "float64 x\nfloat64 y\nfloat64 z")
m("geometry_msgs/Quaternion", "float64 x\nfloat64 y\nfloat64 z\nfloat64 w")
m("geometry_msgs/Pose", "Point position\nQuaternion orientation")
m("geometry_msgs/PoseStamped", "Header header\nPose pose")
m("geometry_msgs/PoseArray", "Header header\nPose[] poses")
m("geometry_msgs/PointStamped", "Header header\nPoint point")
m("geometry_msgs/Twist", "Vector3 linear\nVector3 angular")
m("geometry_msgs/TwistStamped", "Header header\nTwist twist")
m("geometry_msgs/Vector3Stamped", "Header header\nVector3 vector")
m("geometry_msgs/QuaternionStamped", "Header header\nQuaternion quaternion")
m("geometry_msgs/Transform", "Vector3 translation\nQuaternion rotation")
m("geometry_msgs/TransformStamped", "Header header\nstring child_frame_id\nTransform transform")
m("geometry_msgs/PoseWithCovariance", "Pose pose\nfloat64[36] covariance")
m("geometry_msgs/TwistWithCovariance", "Twist twist\nfloat64[36] covariance")
m("nav_msgs/Path", "Header header\ngeometry_msgs/PoseStamped[] poses")
m("nav_msgs/GridCells", "Header header\nfloat32 cell_width\nfloat32 cell_height\ngeometry_msgs/Point[] cells")
m("nav_msgs/Odometry", "Header header\nstring child_frame_id\ngeometry_msgs/PoseWithCovariance pose\ngeometry_msgs/TwistWithCovariance twist")
m("sensor_msgs/PointField", "uint8 INT8=1\nuint8 UINT8=2\nuint8 INT16=3\nuint8 UINT16=4\nuint8 INT32=5\nuint8 UINT32=6\nuint8 FLOAT32=7\nuint8 FLOAT64=8\nstring name\nuint32 offset\nuint8 datatype\nuint32 count")
m("sensor_msgs/PointCloud2", "Header header\nuint32 height\nuint32 width\nPointField[] fields\nbool is_bigendian\nuint32 point_step\nuint32 row_step\nuint8[] data\nbool is_dense")
m("sensor_msgs/Image", "Header header\nuint32 height\nuint32 width\nstring encoding\nuint8 is_bigendian\nuint32 step\nuint8[] data")
m("sensor_msgs/RegionOfInterest", "uint32 x_offset\nuint32 y_offset\nuint32 height\nuint32 width\nbool do_rectify")
m("sensor_msgs/CameraInfo", "Header header\nuint32 height\nuint32 width\nstring distortion_model\nfloat64[] D\nfloat64[9] K\nfloat64[9] R\nfloat64[12] P\nuint32 binning_x\nuint32 binning_y\nRegionOfInterest roi")
m("sensor_msgs/LaserScan", "Header header\nfloat32 angle_min\nfloat32 angle_max\nfloat32 angle_increment\nfloat32 time_increment\nfloat32 scan_time\nfloat32 range_min\nfloat32 range_max\nfloat32[] ranges\nfloat32[] intensities")
m("sensor_msgs/Range", "uint8 ULTRASOUND=0\nuint8 INFRARED=1\nHeader header\nuint8 radiation_type\nfloat32 field_of_view\nfloat32 min_range\nfloat32 max_range\nfloat32 range")
m("mavros_msgs/PositionTarget", "uint8 FRAME_LOCAL_NED=1\nuint8 FRAME_LOCAL_OFFSET_NED=7\nuint8 FRAME_BODY_NED=8\nuint8 FRAME_BODY_OFFSET_NED=9\nuint16 IGNORE_PX=1\nuint16 IGNORE_PY=2\nuint16 IGNORE_PZ=4\nuint16 IGNORE_VX=8\nuint16 IGNORE_VY=16\nuint16 IGNORE_VZ=32\nuint16 IGNORE_AFX=64\nuint16 IGNORE_AFY=128\nuint16 IGNORE_AFZ=256\nuint16 FORCE=512\nuint16 IGNORE_YAW=1024\nuint16 IGNORE_YAW_RATE=2048\nHeader header\nuint8 coordinate_frame\nuint16 type_mask\ngeometry_msgs/Point position\ngeometry_msgs/Vector3 velocity\ngeometry_msgs/Vector3 acceleration_or_force\nfloat32 yaw\nfloat32 yaw_rate")
m("mavros_msgs/Trajectory", "uint8 MAV_TRAJECTORY_REPRESENTATION_WAYPOINTS=0\nuint8 MAV_TRAJECTORY_REPRESENTATION_BEZIER=1\nHeader header\nuint8 type\nPositionTarget point_1\nPositionTarget point_2\nPositionTarget point_3\nPositionTarget point_4\nPositionTarget point_5\nuint8[5] point_valid\nuint16[5] command\nfloat32[5] time_horizon")
m("mavros_msgs/State", "Header header\nbool connected\nbool armed\nbool guided\nbool manual_input\nstring mode\nuint8 system_status")
m("mavros_msgs/CompanionProcessStatus", "uint8 MAV_STATE_UNINIT=0\nuint8 MAV_STATE_BOOT=1\nuint8 MAV_STATE_CALIBRATING=2\nuint8 MAV_STATE_STANDBY=3\nuint8 MAV_STATE_ACTIVE=4\nuint8 MAV_STATE_CRITICAL=5\nuint8 MAV_STATE_EMERGENCY=6\nuint8 MAV_STATE_POWEROFF=7\nuint8 MAV_STATE_FLIGHT_TERMINATION=8\nuint8 MAV_COMP_ID_OBSTACLE_AVOIDANCE=196\nuint8 MAV_COMP_ID_VISUAL_INERTIAL_ODOMETRY=197\nHeader header\nuint8 state\nuint8 component")
m("mavros_msgs/Altitude", "Header header\nfloat32 monotonic\nfloat32 amsl\nfloat32 local\nfloat32 relative\nfloat32 terrain\nfloat32 bottom_clearance")
m("mavros_msgs/Waypoint", "uint8 FRAME_GLOBAL=0\nuint8 FRAME_LOCAL_NED=1\nuint8 FRAME_MISSION=2\nuint8 FRAME_GLOBAL_REL_ALT=3\nuint8 FRAME_LOCAL_ENU=4\nuint8 frame\nuint16 command\nbool is_current\nbool autocontinue\nfloat32 param1\nfloat32 param2\nfloat32 param3\nfloat32 param4\nfloat64 x_lat\nfloat64 y_long\nfloat64 z_alt")
m("mavros_msgs/WaypointList", "uint16 current_seq\nWaypoint[] waypoints")
m("mavros_msgs/ParamValue", "int64 integer\nfloat64 real")
m("mavros_msgs/Param", "Header header\nstring param_id\nParamValue value\nuint16 param_index\nuint16 param_count")
m("visualization_msgs/Marker", "uint8 ARROW=0\nuint8 CUBE=1\nuint8 SPHERE=2\nuint8 CYLINDER=3\nuint8 LINE_STRIP=4\nuint8 LINE_LIST=5\nuint8 CUBE_LIST=6\nuint8 SPHERE_LIST=7\nuint8 POINTS=8\nuint8 TEXT_VIEW_FACING=9\nuint8 MESH_RESOURCE=10\nuint8 TRIANGLE_LIST=11\nuint8 ADD=0\nuint8 MODIFY=0\nuint8 DELETE=2\nuint8 DELETEALL=3\nHeader header\nstring ns\nint32 id\nint32 type\nint32 action\ngeometry_msgs/Pose pose\ngeometry_msgs/Vector3 scale\nstd_msgs/ColorRGBA color\nduration lifetime\nbool frame_locked\ngeometry_msgs/Point[] points\nstd_msgs/ColorRGBA[] colors\nstring text\nstring mesh_resource\nbool mesh_use_embedded_materials")
m("visualization_msgs/MarkerArray", "Marker[] markers")
m("octomap_msgs/Octomap", "Header header\nbool binary\nstring id\nfloat64 resolution\nint8[] data")
SRV = {
 "mavros_msgs/ParamGet": ("string param_id", "bool success\nParamValue value"),
 "mavros_msgs/ParamSet": ("string param_id\nParamValue value", "bool success\nParamValue value"),
 "mavros_msgs/SetMode": ("uint8 base_mode\nstring custom_mode", "bool mode_sent"),
 "mavros_msgs/CommandBool": ("bool value", "bool success\nuint8 result"),
}
PRIM = {"bool": "uint8_t", "int8": "int8_t", "uint8": "uint8_t", "byte": "int8_t", "char": "uint8_t", "int16": "int16_t",
        "uint16": "uint16_t", "int32": "int32_t", "uint32": "uint32_t", "int64": "int64_t", "uint64": "uint64_t",
        "float32": "float", "float64": "double", "string": "std::string", "time": "ros::Time", "duration": "ros::Duration"}

def parse(pkg, text):
    consts, fields, deps = [], [], []
    for line in text.splitlines():
        line = line.split("#")[0].strip()
        if not line: continue
        mm = re.match(r"^(\w+)\s+(\w+)\s*=\s*(.+)$", line)
        if mm: consts.append((PRIM[mm.group(1)], mm.group(2), mm.group(3).strip())); continue
        ty, name = line.split()
        mm = re.match(r"^([\w/]+)(\[(\d*)\])?$", ty)
        base, arr, n = mm.group(1), mm.group(2), mm.group(3)
        if base in PRIM: cpp = PRIM[base]
        else:
            if base == "Header": base = "std_msgs/Header"
            if "/" not in base: base = pkg + "/" + base
            deps.append(base); cpp = base.replace("/", "::")
        if arr:
            cpp = "boost::array<%s, %s>" % (cpp, n) if n else "std::vector<%s>" % cpp
        fields.append((cpp, name))
    return consts, fields, deps

def struct(name, full, consts, fields):
    o = ["struct %s {" % name,
         "  typedef boost::shared_ptr<%s> Ptr;" % name, "  typedef boost::shared_ptr<%s const> ConstPtr;" % name,
         "  static const char* __s_getDataType() { return \"%s\"; }" % full]
    if consts:
        o.append("  enum { " + ", ".join("%s = %s" % (n, v) for t, n, v in consts) + " };")
    inits = []
    for t, n in fields:
        if t in PRIM.values() and t not in ("std::string", "ros::Time", "ros::Duration"): o.append("  %s %s = 0;" % (t, n))
        elif t.startswith("boost::array"): o.append("  %s %s;" % (t, n)); inits.append("%s.assign(%s());" % (n, t[len("boost::array<"):t.rindex(",")]))
        else: o.append("  %s %s;" % (t, n))
    o.append("  %s() { %s }" % (name, " ".join(inits)))
    o.append("  template <class V> void shim_visit(V& v) const { (void)v; %s }" % " ".join("v(\"%s\", %s);" % (n, n) for t, n in fields))
    o.append("};")
    o.append("typedef boost::shared_ptr<%s> %sPtr;" % (name, name))
    o.append("typedef boost::shared_ptr<%s const> %sConstPtr;" % (name, name))
    return o

def header(pkg, name, deps, body):
    o = ["#pragma once", "#include <shim/msg_base.h>"]
    for d in sorted(set(deps)): o.append("#include <%s.h>" % d)
    o += ["namespace %s {" % pkg] + body + ["}"]
    return "\n".join(o) + "\n"

def write(out, rel, text):
    p = os.path.join(out, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    try:
        if open(p).read() == text: return
    except OSError: pass
    open(p, "w").write(text)

class Gen:
    """Stand-in for dynamic_reconfigure's ParameterGenerator: only records the parameters."""
    def __init__(self): self.params = []
    def add(self, name, ty, level, desc="", default=None, min=None, max=None, edit_method=""):
        self.params.append((name, ty, default, min, max))
    def const(self, *a): return a
    def enum(self, *a): return ""
    def add_group(self, *a, **k): return self
    def generate(self, pkg, node, name):
        self.pkg, self.name = pkg, name
        return 0

def config(path, out):
    src = open(path).read()
    src = re.sub(r"^from dynamic_reconfigure.*$", "", src, flags=re.M)
    src = re.sub(r"exit\((gen\.generate\(.*\))\)", r"\1", src)
    holder = {}
    def mk():
        g = Gen(); holder["g"] = g; return g
    env = {"ParameterGenerator": mk, "double_t": "double", "int_t": "int", "bool_t": "bool", "str_t": "std::string"}
    exec(compile(src, path, "exec"), env)
    g = holder["g"]
    pkgdir = path.split("/")[-3]
    ns = {"avoidance": "avoidance"}.get(g.pkg, g.pkg)
    body = ["class %sConfig {" % g.name, " public:"]
    defs = []
    for n, ty, d, lo, hi in g.params:
        if ty == "std::string": v = '"%s"' % d
        elif ty == "bool": v = "true" if d else "false"
        else: v = repr(d if d is not None else 0)
        body.append("  %s %s;" % (ty, n)); defs.append("    c.%s = %s;" % (n, v))
    body.append("  static %sConfig __getDefault__() {\n    %sConfig c;\n%s\n    return c;\n  }" % (g.name, g.name, "\n".join(defs)))
    for which in (3, 4):
        fn = {3: "__getMin__", 4: "__getMax__"}[which]
        ls = [ "    c.%s = %s;" % (p[0], repr(p[which])) for p in g.params if p[1] in ("double", "int") and p[which] is not None]
        body.append("  static %sConfig %s() {\n    %sConfig c = __getDefault__();\n%s\n    return c;\n  }" % (g.name, fn, g.name, "\n".join(ls)))
    body.append("};")
    text = "#pragma once\n#include <string>\n#include <limits>\n#include <dynamic_reconfigure/server.h>\nnamespace %s {\n%s\n}\n" % (ns, "\n".join(body))
    write(out, "%s/%sConfig.h" % (pkgdir, g.name), text)

def main():
    repo, out = sys.argv[1], sys.argv[2]
    table = dict(STD)
    for p in glob.glob(os.path.join(repo, "*", "msg", "*.msg")):
        pkg = p.split("/")[-3]
        table[pkg + "/" + os.path.basename(p)[:-4]] = open(p).read()
    for full, text in table.items():
        pkg, name = full.split("/")
        c, f, d = parse(pkg, text)
        write(out, full + ".h", header(pkg, name, d, struct(name, full, c, f)))
    for full, (rq, rs) in SRV.items():
        pkg, name = full.split("/")
        c1, f1, d1 = parse(pkg, rq); c2, f2, d2 = parse(pkg, rs)
        body = struct(name + "Request", full + "Request", c1, f1) + struct(name + "Response", full + "Response", c2, f2)
        body += ["struct %s { typedef %sRequest Request; typedef %sResponse Response; Request request; Response response; };" % (name, name, name)]
        write(out, full + ".h", header(pkg, name, d1 + d2, body))
    write(out, "shim/all_msgs.h", "#pragma once\n" + "".join("#include <%s.h>\n" % n for n in sorted(list(STD) + list(SRV))))
    for p in glob.glob(os.path.join(repo, "*", "cfg", "*.cfg")): config(os.path.realpath(p), out)

main()
