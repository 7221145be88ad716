from harness.env.fjob import BytesIO
