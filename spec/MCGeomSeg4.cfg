SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 4  Size = 0  Kind = "segs"
INVARIANTS SegmentsMeet PointsInside CornersKept BorderSame Bounded Hulls
