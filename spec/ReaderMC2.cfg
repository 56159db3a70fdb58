CONSTANTS Depth = 4
 Pool = "small"
SPECIFICATION Spec
INVARIANTS UnreadIsReported NoLineIsLost DefectsAreReported RowsInOrder ColumnsOfHeading MissingIsReported Alone
PROPERTIES LaterLinesDoNotMatter
CHECK_DEADLOCK FALSE
