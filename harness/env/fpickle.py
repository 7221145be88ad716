from harness.env.fjob import dumps, loads
