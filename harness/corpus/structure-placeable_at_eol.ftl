key1 =
    A multiline message with a { placeable }
    at the end of line.  The message should
    consist of three lines of text.

key2 =
    A multiline message with a { placeable }

key3 = A singleline message with a { placeable }
