package vimlparser
