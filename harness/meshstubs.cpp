// link-time stand-ins for libraries the checked code paths never call
