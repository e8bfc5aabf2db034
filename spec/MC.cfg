SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
ACTION_CONSTRAINT EmitPath
INVARIANTS CursorInLine UndoIsPast InHistory ThereAndBack FoundMatches RowFits RowHarmless WidthsAgree
  PredictionIsRest FeedIsLine
PROPERTIES Frame Undoes Container Searches Ends Completes Predicts Clips Starts
