static void use(std::ostream& o)
{
  try {
    throw bwsl::exception::BadParsing{};
  } catch (std::exception const& e) {
    o << e.what();
  }
}
