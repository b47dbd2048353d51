SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 3  Size = 5  Kind = "hull"
INVARIANTS SegmentsMeet PointsInside CornersKept BorderSame Bounded Hulls
PROPERTIES Ends
