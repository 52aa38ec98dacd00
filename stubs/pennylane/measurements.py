MidMeasureMP = "MidMeasureMP"
