SPECIFICATION Spec
CONSTANTS Names = {"a", "ab", "a.b", ".c"}
          Patterns = {"*", "a*", "**", "**/*", "a/**", "*/a", "**/a", "[!b]?", "a", "a/", "*/", "./a", "**/a/**", "a/**/ab", "*.*", "", "[a-b]/[!.]*", "**/**/a", "*b", "*a*b*", "?[.]?", "**/*.?", "[]a]", "a-b", "[a-a-b]*"}
          Most = 4
INVARIANTS Sound Kinds InOrder
CHECK_DEADLOCK FALSE
