"""Static analyser for yangson: parses /repo/yangson, never imports or runs it."""
