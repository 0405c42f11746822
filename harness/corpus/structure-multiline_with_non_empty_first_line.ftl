key = Value
    Value 2
