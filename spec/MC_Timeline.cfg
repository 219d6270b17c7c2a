SPECIFICATION Spec
INVARIANTS StaysInside KnownEvents MarksInside ZoomsAreZooms BisectionFinds Emit
CHECK_DEADLOCK FALSE
