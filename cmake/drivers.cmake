driver(node_driver conduit)
driver(diff_driver conduit)
driver(array_driver conduit)
driver(layout_driver conduit)
driver(text_driver conduit)
driver(io_driver conduit conduit_relay)
driver(slab_driver conduit conduit_relay x_hdf5)
driver(mpi_driver conduit conduit_relay_mpi x_mpi)
driver(rel_driver conduit_blueprint conduit)
driver(mesh_driver conduit_blueprint conduit)
driver(mat_driver conduit_blueprint conduit)
driver(bpio_driver conduit_relay conduit_blueprint conduit)
driver(bpio_mpi_driver conduit_relay_mpi_io conduit_relay_mpi conduit_blueprint_mpi conduit_relay conduit_blueprint conduit x_mpi)
driver(part_driver conduit_blueprint conduit)
driver(part_mpi_driver conduit_blueprint_mpi conduit_relay_mpi conduit_blueprint conduit x_mpi)
driver(forms_driver conduit)
driver(types_driver conduit)
driver(schemas_driver conduit)
driver(verify_driver conduit_blueprint conduit)
driver(flat_driver conduit_blueprint conduit)
driver(flat_mpi_driver conduit_blueprint_mpi conduit_relay_mpi conduit_blueprint conduit x_mpi)
driver(adj_driver conduit_blueprint conduit)
driver(adj_mpi_driver conduit_blueprint_mpi conduit_relay_mpi conduit_blueprint conduit x_mpi)
driver(csv_driver conduit_relay conduit_blueprint conduit)
