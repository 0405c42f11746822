foo = Value
.attr = Value 2
