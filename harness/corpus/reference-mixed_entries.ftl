# License Comment

### Resource Comment

-brand-name = Aurora

## Group Comment

key01 =
    .attr = Attribute

ą=Invalid identifier
ć=Another one

# Message Comment
key02 = Value

# Standalone Comment
    .attr = Dangling attribute

# There are 5 spaces on the line between key03 and key04.
key03 = Value 03
     
key04 = Value 04
