"""Static checker for zigpy: program model, path walker and per-property rules."""
