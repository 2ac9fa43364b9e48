SPECIFICATION Spec
CONSTANTS Names = {"a", "ab", "a.b"}
          Patterns = {"*", "a*", "**", "**/*", "a/**", "*/a", "**/a", "[!b]?", "a", "a/", "*/", "./a", "**/a/**", "a/**/ab", "*.*", "", "[a-b]/[!.]*"}
          Most = 3
INVARIANTS Sound Kinds InOrder
CHECK_DEADLOCK FALSE
