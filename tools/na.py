NA={
 'C16':'contracts for the parameter table are not built yet',
}
