### NOTE: Disable final newline insertion when editing this file.

# No EOL