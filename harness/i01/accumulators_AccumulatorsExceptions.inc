static void use(std::ostream& o)
{
  try {
    throw bwsl::exception::AccumulatorOverflow{};
  } catch (std::exception const& e) {
    o << e.what();
  }
}
