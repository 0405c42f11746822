foo = Value

# This is a standalone comment
