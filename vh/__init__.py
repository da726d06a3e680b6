"""property-based checks for the dispersion package"""
