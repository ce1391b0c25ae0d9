DEFAULT_NOTE = 'Search over generated cases against an independent oracle; finds violations, does not establish absence.'
LEVEL_NOTES = {}
TECHNIQUE = {}
NOT_APPLICABLE = {}
