SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 4  Size = 6  Kind = "hull"
INVARIANTS SegmentsMeet PointsInside CornersKept BorderSame Bounded Hulls
