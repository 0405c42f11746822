# Standalone Comment

# Message Comment
foo = Foo

# Term Comment
# with a blank last line.
#
-term = Term

# Another standalone
# 
#      with indent
## Group Comment
### Resource Comment

# Errors
#error
##error
###error
