SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 3  Size = 0  Kind = "segs"
INVARIANTS SegmentsMeet PointsInside CornersKept BorderSame Bounded Hulls
