key = Value
    .label = Value
.accesskey = K
