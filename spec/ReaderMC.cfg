CONSTANTS Depth = 3
 Pool = "small"
SPECIFICATION Spec
INVARIANTS UnreadIsReported NoLineIsLost DefectsAreReported RowsInOrder ColumnsOfHeading MissingIsReported Alone
PROPERTIES LaterLinesDoNotMatter
CHECK_DEADLOCK FALSE
