static void use(std::ostream& o)
{
  std::string a = std::string(std::getenv("VF_SCRATCH")) + "/a", b = a + "b";
  std::ofstream(a) << "text";
  std::ofstream(b) << "text";
  o << bwsl::compare_files(a, b);
  std::ofstream(b) << "texts";
  o << bwsl::compare_files(a, b) << bwsl::compare_files(a, b + "none");
}
