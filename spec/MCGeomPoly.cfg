SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 2  Size = 4  Kind = "poly"
INVARIANTS SegmentsMeet PointsInside CornersKept BorderSame Bounded Hulls
