### This is a resource wide comment
### It's multiline
