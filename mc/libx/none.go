package libx
