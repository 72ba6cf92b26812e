export {}
