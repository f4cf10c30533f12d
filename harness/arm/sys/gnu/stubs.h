// In the place of this machine's; says which functions are missing.
