SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip WritesValid AcceptsValid KeepsContent InventsNothing OnlyWellFormed Reparse SelfContained AllRead KeepsDefinitions
