"""Static analyser for oemof/tespy (pure stdlib, never imports tespy)."""
