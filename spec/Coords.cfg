SPECIFICATION Spec
CONSTANTS
  XNAMES = {"x", "lon", "longitude", "nav_lon", "xh", "i"}
  YNAMES = {"y", "lat", "latitude", "lat_rho", "yh", "j"}
  TNAMES = {"", "time", "t", "time_counter"}
  ENAMES = {"", "depth", "ensemble"}
  KINDS = {"0d", "1d", "yx", "xy", "3d"}
  EMIT = TRUE
INVARIANTS TypeOk OrderFree Explained Unambiguous Emit
CHECK_DEADLOCK FALSE
