#include "glue.h"
glue::Table& glue::python() {
  static Table t;
  return t;
}
glue::Table& glue::javascript() {
  static Table t;
  return t;
}
